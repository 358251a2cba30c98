//! C19: heap use of propagation and parsing.
use crate::core::{fx, hash_str, Mon, Property};
use crate::gen;
use crate::heap::{measure, Use};
use crate::omm;
use crate::oracle::{self, sat_json, Got};
use crate::props::hostile::{self, Input};
use crate::props::total;
use crate::rng::Rng;
use crate::tlegen::{self, text};
use serde_json::{json, Value};

pub static C19: Property = Property {
    id: "C19",
    rule: "distinct (function, kind of input or orbit, outcome, number of heap allocations, order of magnitude of the input) combinations whose heap use was judged",
    cases: [24000, 500000],
    case,
    fixed: None,
};

fn used(u: &Use) -> Value {
    json!({"allocations": u.calls, "bytes_kept": u.kept, "bytes_at_most": u.peak})
}

fn size(n: usize) -> u64 {
    (n as u64 + 1).ilog2() as u64
}

/// Calls without heap memory
fn none<T>(m: &mut Mon, what: &'static str, kind: u64, detail: &dyn Fn() -> Value, f: impl FnOnce() -> T) -> Option<T> {
    let (value, u) = m.call(what, detail, || measure(f))?;
    m.eval();
    if u.calls != 0 || u.kept != 0 {
        m.violate(format!("{what} used the heap: {} allocations, {} bytes kept", u.calls, u.kept), json!({"input": detail(), "heap": used(&u)}));
        return None;
    }
    m.count(what);
    m.cell(&[19, hash_str(what), kind]);
    Some(value)
}

fn capacity(e: &sgp4::Elements) -> usize {
    e.object_name.as_ref().map_or(0, |s| s.capacity()) + e.international_designator.as_ref().map_or(0, |s| s.capacity())
}

/// Parsers: memory in proportion to the input, nothing left behind
fn bounded<T, E>(
    m: &mut Mon,
    what: &'static str,
    kind: u64,
    length: usize,
    detail: &dyn Fn() -> Value,
    parse: impl FnOnce() -> Result<T, E>,
    holds: impl FnOnce(&T) -> usize,
    plain_error: bool,
) -> Option<T> {
    let (got, u) = m.call(what, detail, || measure(parse))?;
    m.eval();
    let limit = 16 * length as i64 + 4096;
    m.max(&format!("{what}: most bytes per byte of input, beyond 4096 bytes"), (u.peak - 4096) as f64 / length.max(1) as f64);
    if u.peak > limit {
        m.violate(format!("{what} allocated {} bytes at a time for an input of {length} bytes", u.peak), json!({"input": detail(), "heap": used(&u)}));
        return None;
    }
    m.cell(&[20, hash_str(what), kind, got.is_ok() as u64, u.calls.min(40), size(length)]);
    match got {
        Ok(value) => {
            let expected = holds(&value) as i64;
            if u.kept != expected {
                m.violate(format!("{what} keeps {} bytes for a value that holds {expected}", u.kept), json!({"input": detail(), "heap": used(&u)}));
                return None;
            }
            m.count(&format!("{what}: accepted"));
            Some(value)
        }
        Err(error) => {
            if plain_error && u.kept != 0 {
                m.violate(format!("{what} keeps {} bytes after an error", u.kept), json!({"input": detail(), "heap": used(&u)}));
                return None;
            }
            let ((), after) = measure(|| drop(error));
            if u.kept + after.kept != 0 {
                m.violate(format!("{what} leaves {} bytes behind after an error", u.kept + after.kept), json!({"input": detail(), "heap": used(&u)}));
                return None;
            }
            m.count(&format!("{what}: refused"));
            None
        }
    }
}

/// Dropping a value gives back what it held
fn release<T>(m: &mut Mon, what: &'static str, held: usize, detail: &dyn Fn() -> Value, value: T) {
    let ((), u) = measure(|| drop(value));
    m.eval();
    if u.kept != -(held as i64) {
        m.violate(format!("dropping the result of {what} released {} of {held} bytes", -u.kept), json!({"input": detail(), "heap": used(&u)}));
    }
}

fn propagation(m: &mut Mon, r: &mut Rng) {
    let (s, odd) = if r.chance(0.5) { (gen::sat_any(r), 0) } else { (total::any_sat(r).0, 1) };
    let sat = || sat_json(&s);
    let geo = oracle::geopotential(&s.geo);
    let orbit = oracle::orbit(&s.orb);
    let o = orbit.clone();
    none(m, "Orbit::from_kozai_elements", odd, &sat, || {
        sgp4::Orbit::from_kozai_elements(&geo, o.inclination, o.right_ascension, o.eccentricity, o.argument_of_perigee, o.mean_anomaly, o.mean_motion).is_ok()
    });
    let Some(built) = none(m, "Constants::new", odd, &sat, || oracle::constants(&s)) else { return };
    let Ok(c) = built else {
        m.count("orbits refused");
        return;
    };
    let mut state = c.initial_state();
    let far = if state.is_some() { 1.0e5 } else { f64::MAX };
    let resonant = state.is_some() as u64;
    let mut times: Vec<f64> = (0..4).map(|_| gen::time(r).clamp(-far, far)).collect();
    times.push(r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 720.0, -720.0]));
    for &t in &times {
        let detail = || json!({"satellite": sat_json(&s), "t": fx(t)});
        for afspc in [false, true] {
            let Some(got) = none(m, if afspc { "propagate_afspc_compatibility_mode" } else { "propagate" }, resonant, &detail, || oracle::run(&c, t, afspc))
            else {
                return;
            };
            m.cell(&[21, odd, resonant, afspc as u64, got.class() as u64]);
        }
    }
    // forwards with one state, where only finite times make sense
    times.retain(|t| t.is_finite());
    times.iter_mut().for_each(|t| *t = t.abs());
    times.sort_by(f64::total_cmp);
    let afspc = r.chance(0.5);
    for t in times {
        let detail = || json!({"satellite": sat_json(&s), "t": fx(t)});
        let state = state.as_mut();
        let Some(got) = none(m, "propagate_from_state", resonant, &detail, || Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), state, afspc)))
        else {
            return;
        };
        m.cell(&[22, odd, resonant, got.class() as u64]);
    }
    none(m, "clone of a propagator", resonant, &sat, || drop(c.clone()));
    m.sample(sat);
}

fn use_elements(m: &mut Mon, r: &mut Rng, e: &sgp4::Elements, origin: &dyn Fn() -> Value) {
    let t = gen::time(r).clamp(-1.0e5, 1.0e5);
    let later = omm::date(r);
    none(m, "dates and epochs", 0, origin, || {
        let there = e.datetime_to_minutes_since_epoch(&later).is_ok();
        let back = e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(t)).is_ok();
        let epochs = e.epoch() + e.epoch_afspc_compatibility_mode();
        (there, back, sgp4::iau_epoch_to_sidereal_time(epochs), sgp4::afspc_epoch_to_sidereal_time(epochs))
    });
    none(m, "from_elements", 0, origin, || {
        let a = sgp4::Constants::from_elements(e);
        let b = sgp4::Constants::from_elements_afspc_compatibility_mode(e);
        (a.map(|c| c.propagate(sgp4::MinutesSinceEpoch(t)).is_ok()).is_ok(), b.is_ok())
    });
}

fn pair(m: &mut Mon, r: &mut Rng, l1: &[u8], l2: &[u8], kind: u64) {
    let origin = || json!({"line1": text(l1), "line2": text(l2), "line1_bytes": l1, "line2_bytes": l2});
    let name = if r.chance(0.4) { Some(tlegen::name_line(r)) } else { None };
    let length = l1.len() + l2.len() + name.as_ref().map_or(0, |n| n.len());
    // the name is made inside, so that it counts as memory of the value
    let Some(e) = bounded(m, "Elements::from_tle", kind, length, &origin, || sgp4::Elements::from_tle(name.clone(), l1, l2), capacity, true) else {
        return;
    };
    use_elements(m, r, &e, &origin);
    let held = capacity(&e);
    release(m, "Elements::from_tle", held, &origin, e);
}

fn list(m: &mut Mon, r: &mut Rng, s: &str, kind: u64) {
    let origin = || json!({"text": if s.len() < 4000 { s } else { "(long)" }, "length": s.len()});
    let whole = |v: &Vec<sgp4::Elements>| v.capacity() * std::mem::size_of::<sgp4::Elements>() + v.iter().map(capacity).sum::<usize>();
    for (k, what) in ["parse_2les", "parse_3les"].into_iter().enumerate() {
        let parse = || if k == 0 { sgp4::parse_2les(s) } else { sgp4::parse_3les(s) };
        let Some(v) = bounded(m, what, kind, s.len(), &origin, parse, whole, true) else { continue };
        if let Some(e) = v.first() {
            use_elements(m, r, e, &origin);
        }
        let held = whole(&v);
        release(m, what, held, &origin, v);
    }
}

fn groups(r: &mut Rng) -> String {
    let n = if r.chance(0.02) { r.below(1500) } else { r.below(30) };
    let named = r.chance(0.5);
    let end = r.pick(&["\n", "\r\n"]);
    let bad = if r.chance(0.3) { r.below(n + 1) } else { u64::MAX };
    let mut s = String::new();
    for k in 0..n {
        let mut t = tlegen::generate(r);
        if k == bad {
            let at = r.below(69) as usize;
            t.line2[at] = b'x';
        }
        if named {
            let long = if r.chance(0.05) { "name ".repeat(r.below(400) as usize) } else { String::new() };
            s.push_str(&tlegen::name_line(r));
            s.push_str(&long);
            s.push_str(end);
        }
        s.push_str(&text(&t.line1));
        s.push_str(end);
        s.push_str(&text(&t.line2));
        s.push_str(end);
    }
    s
}

fn object(m: &mut Mon, r: &mut Rng, bytes: &[u8], kind: u64) {
    let origin = || json!({"json": text(&bytes[..bytes.len().min(4000)]), "length": bytes.len()});
    let Some(e) = bounded(m, "an OMM", kind, bytes.len(), &origin, || serde_json::from_slice::<sgp4::Elements>(bytes), capacity, false) else { return };
    use_elements(m, r, &e, &origin);
    let held = capacity(&e);
    release(m, "an OMM", held, &origin, e);
}

fn stored(m: &mut Mon, r: &mut Rng) {
    let s = gen::sat_any(r);
    let Ok(c) = oracle::constants(&s) else { return };
    let Ok(bytes) = serde_json::to_vec(&c) else { return };
    let origin = || sat_json(&s);
    if let Some(c) = bounded(m, "a stored propagator", 0, bytes.len(), &origin, || serde_json::from_slice::<sgp4::Constants>(&bytes), |_| 0, false) {
        release(m, "a stored propagator", 0, &origin, c);
    }
}

fn case(m: &mut Mon, r: &mut Rng) {
    match r.below(10) {
        0..=3 => propagation(m, r),
        4 => {
            let s = groups(r);
            list(m, r, &s, 9);
        }
        5 => stored(m, r),
        6 => {
            let t = tlegen::generate(r);
            pair(m, r, &t.line1, &t.line2, 9);
        }
        7 => {
            let mut o = omm::generate(r);
            omm::extra(r, &mut o.pairs);
            if r.chance(0.1) {
                o.pairs.push(("NOTE".into(), format!("\"{}\"", "x".repeat(r.below(100_000) as usize))));
            }
            let bytes = omm::render(r, &o.pairs, 2).into_bytes();
            object(m, r, &bytes, 9);
        }
        _ => match hostile::make(r) {
            (Input::Pair(l1, l2), kind) => pair(m, r, &l1, &l2, kind),
            (Input::Text(s), kind) => list(m, r, &s, kind),
            (Input::Json(bytes), kind) => object(m, r, &bytes, kind),
        },
    }
}
