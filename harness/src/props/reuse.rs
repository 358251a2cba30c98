//! C06: histories of calls that share one integrator state.
use crate::core::{fx, trap, Mon, Property};
use crate::gen;
use crate::oracle::{run, sat_json, verdict, Got};
use crate::props::fidelity::build;
use crate::refm::Sat;
use crate::rng::Rng;
use serde_json::{json, Value};

pub static C06: Property = Property {
    id: "C06",
    rule: "distinct (resonance, direction, kind of move, steps advanced class, mode, outcome, position relative to the step) combinations among calls on a reused state that were compared with a fresh propagation",
    cases: [36000, 110000],
    case,
    fixed: Some(fixed),
};

struct Event {
    t: f64,
    afspc: bool,
    what: &'static str,
}

fn history(events: &[Event]) -> Value {
    let skip = events.len().saturating_sub(60);
    json!(events[skip..]
        .iter()
        .map(|e| json!([e.what, fx(e.t), if e.afspc { "afspc" } else { "standard" }]))
        .collect::<Vec<_>>())
}

/// the multiple of 720 minutes at or before the requested time, on its side of epoch
fn expected_time(t: f64) -> f64 {
    let k = (t.abs() / 720.0).floor() * 720.0;
    let k = if k > t.abs() { k - 720.0 } else { k };
    if t < 0.0 {
        -k
    } else {
        k
    }
}

fn same(a: &Got, b: &Got) -> bool {
    if a.bits() == b.bits() {
        return true;
    }
    match (a, b) {
        (Got::Ok(x), Got::Ok(y)) => (0..6).all(|i| (x[i] - y[i]).abs() <= if i < 3 { 1e-6 } else { 1e-9 }),
        (Got::ErrEcc(e, t), Got::ErrEcc(f, u)) | (Got::ErrPert(e, t), Got::ErrPert(f, u)) => {
            t.to_bits() == u.to_bits() && ((e - f).abs() <= 1e-11 || (e.is_nan() && f.is_nan()))
        }
        (Got::ErrSemi(t), Got::ErrSemi(u)) => t.to_bits() == u.to_bits(),
        _ => false,
    }
}

fn call(c: &sgp4::Constants, state: &mut sgp4::ResonanceState, t: f64, afspc: bool) -> Result<Got, String> {
    trap(|| Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), Some(state), afspc)))
}

struct Walk<'a> {
    s: &'a Sat,
    c: &'a sgp4::Constants,
    events: Vec<Event>,
    band: u64,
}

impl Walk<'_> {
    fn detail(&self) -> Value {
        json!({"satellite": sat_json(self.s), "history": history(&self.events)})
    }

    /// A request the state must serve
    fn serve(&mut self, m: &mut Mon, state: &mut sgp4::ResonanceState, t: f64, afspc: bool, what: &'static str) -> bool {
        let before = state.t();
        self.events.push(Event { t, afspc, what });
        let Some(fresh) = m.call("stateless propagation", || self.detail(), || run(self.c, t, afspc)) else { return false };
        let reused = match call(self.c, state, t, afspc) {
            Ok(g) => g,
            Err(e) => {
                m.violate(format!("a request the state can serve panicked: {e}"), self.detail());
                return false;
            }
        };
        m.eval();
        if !same(&reused, &fresh) {
            let (j, _) = verdict(self.s, t, afspc, 16, &fresh);
            if j.fragile && reused.class() == fresh.class() {
                m.count("chaotic, not compared");
            } else {
                m.violate(
                    format!("the reused state gives {reused:?}, a fresh propagation gives {fresh:?}"),
                    self.detail(),
                );
                return false;
            }
        }
        if reused.bits() == fresh.bits() {
            m.count("bit-identical to a fresh propagation");
        }
        let after = state.t();
        let want = expected_time(t);
        let good = if reused.class() == 0 {
            after == want
        } else {
            // an orbit that has diverged may be reported before the integration
            after == want || after == before
        };
        if !good {
            m.violate(
                format!("the state reports time {after} after a propagation to {t}, expected {want}"),
                self.detail(),
            );
            return false;
        }
        let advanced = ((after - before).abs() / 720.0) as u64;
        let place = if t == want {
            0
        } else if (t - want).abs() < 1e-6 {
            1
        } else if (t - want).abs() > 720.0 - 1e-6 {
            2
        } else {
            3
        };
        m.count(what);
        m.cell(&[
            self.band,
            (t < 0.0) as u64,
            crate::core::hash_str(what),
            64 - advanced.leading_zeros() as u64,
            afspc as u64,
            reused.class() as u64,
            place,
        ]);
        m.sample(|| json!({"t": t, "state_before": before, "state_after": after, "move": what, "outcome": format!("{reused:?}")}));
        true
    }

    /// A request outside the monotone order: refused, or answered rightly, and harmless
    fn illegal(&mut self, m: &mut Mon, state: &mut sgp4::ResonanceState, t: f64, afspc: bool, must_refuse: bool) -> bool {
        let before = state.t();
        self.events.push(Event { t, afspc, what: "out of order" });
        let got = call(self.c, state, t, afspc);
        m.eval();
        match got {
            Err(_) => {
                m.count("out-of-order request refused");
                if state.t() != before {
                    m.violate(
                        format!("a refused request moved the state from {before} to {}", state.t()),
                        self.detail(),
                    );
                    return false;
                }
                m.cell(&[self.band, 1000, (t < 0.0) as u64, (before < 0.0) as u64, (t == 0.0) as u64]);
            }
            Ok(g) => {
                if must_refuse {
                    m.violate(
                        format!("a state at {before} answered a request for {t} with {g:?} instead of refusing it"),
                        self.detail(),
                    );
                    return false;
                }
                let Some(fresh) = m.call("stateless propagation", || self.detail(), || run(self.c, t, afspc)) else { return false };
                if !same(&g, &fresh) {
                    m.violate(
                        format!("an out-of-order request was answered with {g:?} instead of {fresh:?}"),
                        self.detail(),
                    );
                    return false;
                }
                m.count("out-of-order request within the step answered rightly");
            }
        }
        true
    }
}

fn next_time(r: &mut Rng, last: f64, reach: f64) -> (f64, &'static str) {
    let a = last.abs();
    match r.below(12) {
        0 => (a, "same time again"),
        1 => (gen::next_up(a), "next double"),
        2 | 3 => (((a / 720.0).floor() + r.range(1, 3) as f64) * 720.0, "exact step"),
        4 => (gen::next_down(((a / 720.0).floor() + r.range(1, 3) as f64) * 720.0), "just before a step"),
        5 => (gen::next_up(((a / 720.0).floor() + r.range(1, 3) as f64) * 720.0), "just after a step"),
        6 => (a + r.uni(0.0, 10.0), "small move"),
        7 | 8 => (a + r.uni(0.0, 720.0), "less than a step"),
        9 => (a + r.uni(0.0, 7200.0), "several steps"),
        10 => (a + r.log_uni(1.0, reach), "long move"),
        _ => (a + 1440.0, "one day"),
    }
}

fn case(m: &mut Mon, r: &mut Rng) {
    if r.chance(0.1) {
        return stateless(m, r);
    }
    let mut s = gen::sat_resonant(r);
    if r.chance(0.15) {
        // diverges within the history
        s.bstar = r.sign() * r.log_uni(1e-3, 1e3);
    }
    let Some(c) = build(m, &s) else { return };
    let Some(mut state) = c.initial_state() else {
        m.violate("a resonant orbit has no integrator state".into(), sat_json(&s));
        return;
    };
    if state.t() != 0.0 {
        m.violate(format!("the initial state reports time {}", state.t()), sat_json(&s));
        return;
    }
    let mut w = Walk { s: &s, c: &c, events: Vec::new(), band: gen::is_resonant(&s.orb) as u64 };
    let sign = r.sign();
    let mut t: f64 = 0.0;
    let mut afspc = r.chance(0.5);
    let length = if m.thorough { r.range(2, 40) } else { r.range(2, 16) };
    // within the first step the state has not moved: any order is served rightly or refused
    if r.chance(0.4) {
        let mut first = state;
        for _ in 0..r.range(2, 5) {
            let x = match r.below(5) {
                0 => 0.0,
                1 => -0.0,
                2 => gen::next_down(720.0) * r.sign(),
                _ => r.uni(0.0, 720.0) * r.sign(),
            };
            if !w.illegal(m, &mut first, x, afspc, false) {
                return;
            }
        }
        w.events.push(Event { t: 0.0, afspc, what: "new state" });
    }
    if r.chance(0.3) {
        t = if r.chance(0.5) { 0.0 } else { r.uni(0.0, 720.0) };
        if !w.serve(m, &mut state, sign * t, afspc, "within the first step") {
            return;
        }
    }
    for _ in 0..length {
        if r.chance(0.3) {
            afspc = !afspc;
        }
        let (next, what) = next_time(r, t, 3.0e5);
        t = next;
        if t > 3.0e6 {
            break;
        }
        if r.chance(0.15) {
            // a copy may go elsewhere without affecting the original
            let mut copy = state;
            w.events.push(Event { t: 0.0, afspc, what: "copied" });
            let (far, _) = next_time(r, t, 1.0e5);
            if !w.serve(m, &mut copy, sign * far, afspc, "on a copy") {
                return;
            }
            w.events.push(Event { t: 0.0, afspc, what: "back to the original" });
        }
        if !w.serve(m, &mut state, sign * t, afspc, what) {
            return;
        }
        if r.chance(0.25) {
            let at = state.t();
            if at != 0.0 {
                let x = match r.below(7) {
                    0 => 0.0,
                    1 => -t * sign,
                    2 => -at,
                    3 => at - sign * r.log_uni(1e-3, 719.0),
                    4 => {
                        if at > 0.0 {
                            gen::next_down(at)
                        } else {
                            gen::next_up(at)
                        }
                    }
                    5 => at * r.f() * (1.0 - 1e-9),
                    _ => -sign * r.log_uni(1e-6, 1e7),
                };
                if !w.illegal(m, &mut state, x, afspc, true) {
                    return;
                }
            }
            // behind the last request but not behind the state
            if r.chance(0.3) {
                let x = at + sign * (t - at.abs()) * r.f();
                if x * sign >= at * sign && x * sign < t && !w.illegal(m, &mut state, x, afspc, false) {
                    return;
                }
            }
        }
    }
    // no state at all
    if r.chance(0.2) {
        let x = if r.chance(0.3) { r.uni(-720.0, 720.0) } else { gen::time(r) };
        w.events.push(Event { t: x, afspc, what: "without a state" });
        let got = trap(|| Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(x), None, afspc)));
        m.eval();
        match got {
            Err(_) => m.count("missing state refused"),
            Ok(g @ Got::Ok(_)) => {
                m.violate(format!("a resonant orbit was propagated without a state, giving {g:?}"), w.detail());
                return;
            }
            Ok(_) => m.count("missing state, error reported"),
        }
        m.cell(&[w.band, 2000, (x < 0.0) as u64, (x.abs() < 720.0) as u64, afspc as u64]);
    }
    // a fresh state of the same propagator starts over
    if r.chance(0.2) {
        if let Some(mut fresh) = c.initial_state() {
            w.events.push(Event { t: 0.0, afspc, what: "new state" });
            let x = -sign * r.log_uni(1.0, 1e5);
            w.serve(m, &mut fresh, x, afspc, "new state, other direction");
        }
    }
}

/// Orbits that need no integrator
fn stateless(m: &mut Mon, r: &mut Rng) {
    let s = if r.chance(0.5) { gen::sat_near(r) } else { gen::sat_deep(r) };
    let Some(c) = build(m, &s) else { return };
    m.eval();
    if c.initial_state().is_some() {
        m.violate("an orbit without resonance has an integrator state".into(), sat_json(&s));
        return;
    }
    m.cell(&[77, (s.orb.n > gen::NEAR) as u64]);
    m.count("orbits without state");
    for _ in 0..3 {
        let t = gen::time(r);
        let afspc = r.chance(0.5);
        let detail = || json!({"satellite": sat_json(&s), "t": fx(t), "afspc_mode": afspc});
        let (Some(a), Some(b)) = (
            m.call("propagate", detail, || run(&c, t, afspc)),
            m.call("propagate_from_state", detail, || {
                Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), c.initial_state().as_mut(), afspc))
            }),
        ) else {
            return;
        };
        m.eval();
        if !same(&a, &b) {
            m.violate(format!("propagate gives {a:?}, propagate_from_state gives {b:?}"), detail());
            return;
        }
        m.cell(&[78, (s.orb.n > gen::NEAR) as u64, a.class() as u64, (t < 0.0) as u64]);
    }
    surplus(m, r, &s, &c);
}

/// The state of a resonant orbit handed to an orbit that has none
fn surplus(m: &mut Mon, r: &mut Rng, s: &Sat, c: &sgp4::Constants) {
    let other = gen::sat_resonant(r);
    let Some(owner) = build(m, &other) else { return };
    let Some(mut state) = owner.initial_state() else {
        m.violate("a resonant orbit has no integrator state".into(), sat_json(&other));
        return;
    };
    // new, or used before by its owner
    let sign = r.sign();
    let used = r.chance(0.5);
    if used {
        let t = sign * r.uni(720.0, 20000.0);
        let _ = call(&owner, &mut state, t, false);
    }
    let before = state.t();
    let t = if before == 0.0 { gen::time(r) } else { before + sign * r.log_uni(1e-3, 1e5) };
    let afspc = r.chance(0.5);
    let detail = || json!({"satellite": sat_json(s), "owner of the state": sat_json(&other), "t": fx(t), "afspc_mode": afspc});
    let got = call(c, &mut state, t, afspc);
    m.eval();
    match got {
        Err(_) => m.count("surplus state refused"),
        Ok(g @ Got::Ok(_)) => {
            m.violate(format!("an orbit without a state of its own accepted another's, giving {g:?}"), detail());
            return;
        }
        Ok(_) => m.count("surplus state, error reported"),
    }
    if state.t() != before {
        m.violate(format!("a refused request moved the state from {before} to {}", state.t()), detail());
        return;
    }
    m.cell(&[79, (s.orb.n > gen::NEAR) as u64, used as u64, (t < 0.0) as u64, afspc as u64]);
}

/// Every step boundary of a long walk, both directions, both bands
fn fixed(m: &mut Mon, index: u64) -> bool {
    if index >= 4 {
        return false;
    }
    let geosynchronous = index & 1 == 0;
    let sign = if index & 2 == 0 { 1.0 } else { -1.0 };
    let s = Sat {
        geo: crate::refm::REF_WGS84,
        epoch: 20.5,
        gsto: 2.0,
        bstar: 1e-5,
        orb: crate::refm::Orb {
            i: if geosynchronous { 0.05 } else { 1.1 },
            node: 1.0,
            e: if geosynchronous { 0.001 } else { 0.69 },
            argp: 4.6,
            m: 0.5,
            n: if geosynchronous { 4.3752691e-3 } else { 8.7505e-3 },
        },
    };
    let Some(c) = build(m, &s) else { return true };
    let Some(mut state) = c.initial_state() else {
        m.violate("a resonant orbit has no integrator state".into(), sat_json(&s));
        return true;
    };
    let mut w = Walk { s: &s, c: &c, events: Vec::new(), band: gen::is_resonant(&s.orb) as u64 };
    for k in 1..200 {
        let x = k as f64 * 720.0;
        for t in [gen::next_down(x), x, x, gen::next_up(x)] {
            if !w.serve(m, &mut state, sign * t, k % 3 == 0, "systematic walk") {
                return true;
            }
        }
        if !w.illegal(m, &mut state, sign * gen::next_down(x), false, true) || !w.illegal(m, &mut state, -sign * x, false, true) {
            return true;
        }
    }
    true
}
