//! C17: predictions depend on nothing but the propagator and the time, on any number of threads.
use crate::core::{fx, Mon, Property};
use crate::gen;
use crate::omm::shuffle;
use crate::oracle::{self, Got};
use crate::rng::Rng;
use crate::tlegen;
use serde_json::{json, Value};
use std::marker::PhantomData;
use std::sync::Barrier;

pub static C17: Property = Property {
    id: "C17",
    rule: "distinct (schedule: shuffled, repeated, cloned, threads; kind of orbit, mode, sign and magnitude of the time, outcome) combinations whose outcome was compared bit for bit with that of a fresh propagator",
    cases: [500, 8000],
    case: c17,
    fixed: Some(c17_fixed),
};

/// Whether a type can cross threads, without requiring it
struct Probe<T>(PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct SendProbe<T>(PhantomData<T>);
impl<T> Fallback for SendProbe<T> {}
impl<T: Send> SendProbe<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

/// lets the schedule run even if the type under test stopped being shareable (which is then reported)
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

#[derive(Clone)]
enum Source {
    Direct(crate::refm::Sat),
    Catalogue(Box<sgp4::Elements>, bool),
}

impl Source {
    fn build(&self) -> Option<sgp4::Constants> {
        match self {
            Source::Direct(s) => oracle::constants(s).ok(),
            Source::Catalogue(e, false) => sgp4::Constants::from_elements(e).ok(),
            Source::Catalogue(e, true) => sgp4::Constants::from_elements_afspc_compatibility_mode(e).ok(),
        }
    }
    fn json(&self) -> Value {
        match self {
            Source::Direct(s) => oracle::sat_json(s),
            Source::Catalogue(e, a) => json!({"elements": format!("{e:?}"), "afspc": a}),
        }
    }
}

#[derive(Clone, Copy)]
struct Request {
    sat: usize,
    t: f64,
    afspc: bool,
}

struct Plan {
    sources: Vec<Source>,
    requests: Vec<Request>,
    expected: Vec<Got>,
}

fn sources(r: &mut Rng) -> Vec<Source> {
    let n = 1 + r.below(6) as usize;
    let mut out: Vec<Source> = Vec::new();
    for _ in 0..n {
        if r.chance(0.4) {
            let t = tlegen::plausible(r);
            if let Ok(e) = sgp4::Elements::from_tle(None, &t.line1, &t.line2) {
                out.push(Source::Catalogue(Box::new(e.clone()), r.chance(0.5)));
                if r.chance(0.5) {
                    // the same object with other data
                    let mut f = e.clone();
                    match r.below(4) {
                        0 => f.mean_anomaly = 360.0 - f.mean_anomaly,
                        1 => f.drag_term *= 2.0,
                        2 => f.mean_motion *= 1.0001,
                        _ => f.right_ascension += 1e-9,
                    }
                    out.push(Source::Catalogue(Box::new(f), r.chance(0.5)));
                }
                if r.chance(0.3) {
                    out.push(Source::Catalogue(Box::new(e), r.chance(0.5)));
                }
            }
        } else {
            let s = gen::sat_any(r);
            if r.chance(0.5) {
                let mut c = s.clone();
                match r.below(5) {
                    0 => c.orb.m += 0.1,
                    1 => c.bstar += 1e-5,
                    2 => c.gsto += 0.5,
                    3 => c.epoch += 1.0,
                    _ => c.orb.node = gen::next_up(c.orb.node),
                }
                out.push(Source::Direct(c));
            }
            out.push(Source::Direct(s));
        }
    }
    out
}

/// None when a call panics (a violation was reported)
fn plan(m: &mut Mon, r: &mut Rng) -> Option<Plan> {
    let sources: Vec<Source> = sources(r).into_iter().filter(|s| s.build().is_some()).collect();
    if sources.is_empty() {
        return None;
    }
    let mut times: Vec<f64> = Vec::new();
    let count = if cfg!(miri) { 2 } else { 2 + r.below(8) };
    for _ in 0..count {
        let t = match r.below(6) {
            0 => gen::step_time(r, 60),
            1 => r.uni(-3000.0, 3000.0),
            2 => r.pick(&[0.0, -0.0, 1440.0, -1440.0, 720.0]),
            3 if !times.is_empty() => {
                let t = r.pick(&times);
                r.pick(&[gen::next_up(t), -t, t + 1e-9, t + 1.0, t * 1.0000001])
            }
            _ => gen::time(r).clamp(-2e5, 2e5),
        };
        times.push(t);
    }
    let mut requests = Vec::new();
    for sat in 0..sources.len() {
        for &t in &times {
            if r.chance(0.7) {
                requests.push(Request { sat, t, afspc: r.chance(0.5) });
            }
        }
    }
    let mut expected = Vec::new();
    for q in &requests {
        let detail = || describe(&sources, q);
        expected.push(m.call("a fresh propagator", detail, || {
            let c = sources[q.sat].build().expect("built before");
            oracle::run(&c, q.t, q.afspc)
        })?);
        m.eval();
    }
    Some(Plan { sources, requests, expected })
}

fn describe(sources: &[Source], q: &Request) -> Value {
    json!({"satellite": q.sat, "t": fx(q.t), "afspc": q.afspc, "input": sources[q.sat].json()})
}

fn cells(m: &mut Mon, p: &Plan, schedule: u64) {
    for (q, x) in p.requests.iter().zip(&p.expected) {
        let kind = match &p.sources[q.sat] {
            Source::Direct(s) => 1 + gen::is_resonant(&s.orb) as u64 + 4 * (s.orb.n > gen::NEAR) as u64,
            Source::Catalogue(e, a) => 20 + *a as u64 + 2 * e.mean_motion as u64,
        };
        let size = if q.t == 0.0 { 0 } else { (q.t.abs().log10().floor() as i64 + 400) as u64 };
        m.cell(&[schedule, kind, q.afspc as u64, (q.t < 0.0) as u64, size, x.class() as u64]);
    }
}

fn c17(m: &mut Mon, r: &mut Rng) {
    let Some(p) = plan(m, r) else { return };
    let shared: Vec<sgp4::Constants> = p.sources.iter().map(|s| s.build().expect("built before")).collect();
    let before: Vec<String> = shared.iter().map(|c| format!("{c:?}")).collect();
    let before_tree: Vec<Option<Value>> = shared.iter().map(|c| serde_json::to_value(c).ok()).collect();
    // one thread, any order, repeated
    let mut order: Vec<usize> = (0..p.requests.len()).chain(0..p.requests.len()).collect();
    if r.chance(0.2) && !cfg!(miri) {
        for _ in 0..2000 {
            order.push(r.below(p.requests.len().max(1) as u64) as usize % p.requests.len().max(1));
        }
    }
    order.retain(|k| *k < p.requests.len());
    shuffle(r, &mut order);
    let clone_at = r.below(order.len() as u64 + 1) as usize;
    let mut clones: Vec<sgp4::Constants> = Vec::new();
    for (step, &k) in order.iter().enumerate() {
        if step == clone_at {
            clones = shared.clone();
        }
        let q = p.requests[k];
        let c = if !clones.is_empty() && r.chance(0.5) { &clones[q.sat] } else { &shared[q.sat] };
        let detail = || describe(&p.sources, &q);
        // other work in between
        if r.chance(0.05) {
            let other = p.sources[r.below(p.sources.len() as u64) as usize].build();
            if let Some(o) = other {
                let _ = m.call("propagating", detail, || oracle::run(&o, q.t, !q.afspc));
            }
        }
        let Some(got) = m.call("propagating", detail, || oracle::run(c, q.t, q.afspc)) else { return };
        m.eval();
        if got.bits() != p.expected[k].bits() {
            m.violate(
                format!("after {step} other calls the outcome differs: {} instead of {}", got.json(), p.expected[k].json()),
                detail(),
            );
            return;
        }
    }
    cells(m, &p, 1);
    for (k, c) in shared.iter().enumerate() {
        m.eval();
        if format!("{c:?}") != before[k] || serde_json::to_value(c).ok() != before_tree[k] {
            m.violate("a propagator changed by being used".into(), p.sources[k].json());
            return;
        }
        let again = p.sources[k].build().map(|c| format!("{c:?}"));
        if again.as_ref() != Some(&before[k]) {
            m.violate("initialising again gives another propagator".into(), p.sources[k].json());
            return;
        }
    }
    histories(m, r, &p, &shared);
    parsing(m, r);
    if r.chance(if m.thorough { 0.5 } else { 0.6 }) || cfg!(miri) {
        threads(m, r, &p, shared);
    }
    m.sample(|| json!({"satellites": p.sources.len(), "requests": p.requests.len(), "calls": order.len()}));
}

/// stateful histories of several satellites, interleaved
fn histories(m: &mut Mon, r: &mut Rng, p: &Plan, shared: &[sgp4::Constants]) {
    let resonant: Vec<usize> = (0..shared.len()).filter(|k| shared[*k].initial_state().is_some()).collect();
    if resonant.is_empty() {
        return;
    }
    let steps = 4;
    let mut plans: Vec<(usize, f64, Vec<f64>)> = Vec::new();
    for &k in resonant.iter().chain(resonant.iter()) {
        let sign = r.sign();
        let mut t = 0.0;
        let times: Vec<f64> = (0..steps)
            .map(|_| {
                t += r.uni(0.0, 2500.0);
                sign * t
            })
            .collect();
        plans.push((k, sign, times));
    }
    let mut alone: Vec<Vec<Vec<u64>>> = Vec::new();
    for (k, _, times) in &plans {
        let detail = || p.sources[*k].json();
        let Some(v) = m.call("propagate_from_state", detail, || {
            let mut state = shared[*k].initial_state();
            times
                .iter()
                .map(|t| Got::from(shared[*k].propagate_from_state(sgp4::MinutesSinceEpoch(*t), state.as_mut(), true)).bits())
                .collect::<Vec<_>>()
        }) else {
            return;
        };
        alone.push(v);
    }
    let mut states: Vec<_> = plans.iter().map(|(k, _, _)| shared[*k].initial_state()).collect();
    for i in 0..steps {
        for (j, (k, _, times)) in plans.iter().enumerate() {
            let detail = || p.sources[*k].json();
            let Some(got) = m.call("propagate_from_state", detail, || {
                Got::from(shared[*k].propagate_from_state(sgp4::MinutesSinceEpoch(times[i]), states[j].as_mut(), true))
            }) else {
                return;
            };
            m.eval();
            if got.bits() != alone[j][i] {
                m.violate(
                    format!("the history of one satellite changed when it was interleaved with others, at t = {:e}", times[i]),
                    detail(),
                );
                return;
            }
        }
    }
    m.count("interleaved histories");
    m.cell(&[3, plans.len() as u64]);
}

fn parsing(m: &mut Mon, r: &mut Rng) {
    let ts: Vec<tlegen::Tle> = (0..2).map(|_| tlegen::generate(r)).collect();
    let parse = |t: &tlegen::Tle| sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2).map(|e| format!("{e:?}")).map_err(|e| format!("{e:?}"));
    let detail = || json!({"line1": tlegen::text(&ts[0].line1), "line2": tlegen::text(&ts[0].line2)});
    let Some((a, b, c)) = m.call("parsing", detail, || (parse(&ts[0]), parse(&ts[1]), parse(&ts[0]))) else { return };
    m.eval();
    if a != c {
        m.violate("parsing the same lines again gives something else".into(), detail());
    }
    let Some(again) = m.call("parsing", detail, || parse(&ts[1])) else { return };
    if b != again {
        m.violate("parsing the same lines again gives something else".into(), detail());
    }
}

/// the same requests from several threads at once
fn threads(m: &mut Mon, r: &mut Rng, p: &Plan, shared: Vec<sgp4::Constants>) {
    // texts to parse meanwhile, and what they gave on one thread
    let texts: Vec<tlegen::Tle> = (0..3).map(|_| tlegen::generate(r)).collect();
    let parse = |t: &tlegen::Tle| {
        sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2).map(|e| format!("{e:?}")).map_err(|e| format!("{e:?}"))
    };
    let Some(parsed) = m.call("parsing", || json!({}), || texts.iter().map(parse).collect::<Vec<_>>()) else { return };
    if !(Probe::<sgp4::Constants>::SYNC && SendProbe::<sgp4::Constants>::SEND) {
        return; // reported by the systematic part
    }
    let n = if cfg!(miri) { 3 } else { 2 + r.below(7) as usize };
    let barrier = Barrier::new(n);
    let shared = Share(shared);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let problems: Vec<Option<String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (shared, barrier, texts, parsed, parse) = (&shared, &barrier, &texts, &parsed, &parse);
                scope.spawn(move || {
                    let shared: &Share<Vec<sgp4::Constants>> = shared;
                    let mut r = Rng::new(*seed, 0);
                    let mut order: Vec<usize> = (0..p.requests.len()).collect();
                    shuffle(&mut r, &mut order);
                    barrier.wait();
                    for k in order {
                        let q = p.requests[k];
                        if r.chance(0.2) {
                            let n = r.below(texts.len() as u64) as usize;
                            match crate::core::trap(|| parse(&texts[n])) {
                                Err(e) => return Some(format!("parsing panicked on one of several threads: {e}")),
                                Ok(g) if g != parsed[n] => {
                                    return Some(format!("parsing on one of several threads gave {g:?} instead of {:?}", parsed[n]))
                                }
                                Ok(_) => (),
                            }
                        }
                        let got = crate::core::trap(|| match r.below(6) {
                            0 => p.sources[q.sat].build().map(|c| oracle::run(&c, q.t, q.afspc)),
                            1 => Some(oracle::run(&shared.0[q.sat].clone(), q.t, q.afspc)),
                            _ => Some(oracle::run(&shared.0[q.sat], q.t, q.afspc)),
                        });
                        match got {
                            Err(e) => return Some(format!("request {k} panicked on one of several threads: {e}")),
                            Ok(None) => return Some(format!("initialising satellite {} failed on one of several threads", q.sat)),
                            Ok(Some(g)) => {
                                if g.bits() != p.expected[k].bits() {
                                    return Some(format!(
                                        "request {k} (satellite {}, t = {:e}) gave {} on one of several threads instead of {}",
                                        q.sat,
                                        q.t,
                                        g.json(),
                                        p.expected[k].json()
                                    ));
                                }
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread died".into()))).collect()
    });
    m.evaluations += (n * p.requests.len()) as u64;
    m.add("calls made on several threads at once", (n * p.requests.len()) as u64);
    if let Some(x) = problems.into_iter().flatten().next() {
        m.violate(x, json!({"satellites": p.sources.iter().map(|s| s.json()).collect::<Vec<_>>()}));
        return;
    }
    cells(m, p, 10 + n as u64);
}

fn c17_fixed(m: &mut Mon, index: u64) -> bool {
    if index > 0 {
        return false;
    }
    m.eval();
    if !SendProbe::<sgp4::Constants>::SEND {
        m.violate("a propagator cannot be sent to another thread".into(), json!({}));
    }
    if !Probe::<sgp4::Constants>::SYNC {
        m.violate("a propagator cannot be shared between threads".into(), json!({}));
    }
    // a negative control of the detection
    let _ = (Probe::<u8>::SEND, SendProbe::<u8>::SYNC);
    assert!(!Probe::<std::cell::Cell<u8>>::SYNC && !SendProbe::<std::rc::Rc<u8>>::SEND, "detection of shareable types");
    true
}
