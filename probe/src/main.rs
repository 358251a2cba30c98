//! Executes requests read from the standard input with the feature configuration it was built for and prints
//! every outcome, one line per observation, floating-point numbers as bits.
use std::io::{BufRead, Write};

fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn number(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).expect("bits"))
}
fn bytes(s: &str) -> Vec<u8> {
    let s = &s[1..]; // "x" stands for the empty string
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hexadecimal")).collect()
}

fn elements(e: &sgp4::Elements) -> String {
    let mut out = format!(
        "norad={} class={:?} datetime={:?} dot={} ddot={} bstar={} set={} i={} node={} e={} argp={} m={} n={} rev={} type={}",
        e.norad_id,
        e.classification,
        e.datetime,
        bits(e.mean_motion_dot),
        bits(e.mean_motion_ddot),
        bits(e.drag_term),
        e.element_set_number,
        bits(e.inclination),
        bits(e.right_ascension),
        bits(e.eccentricity),
        bits(e.argument_of_perigee),
        bits(e.mean_anomaly),
        bits(e.mean_motion),
        e.revolution_number,
        e.ephemeris_type,
    );
    #[cfg(feature = "has_alloc")]
    out.push_str(&format!(" designator={:?} name={:?}", e.international_designator, e.object_name));
    #[cfg(not(feature = "has_alloc"))]
    out.push_str(" designator");
    out
}

fn error(e: &sgp4::TleError) -> String {
    format!("{e} {e:?}")
}

fn prediction(r: Result<sgp4::Prediction, sgp4::Error>) -> String {
    match r {
        Ok(p) => {
            let v: Vec<String> = p.position.iter().chain(p.velocity.iter()).map(|x| bits(*x)).collect();
            format!("ok {}", v.join(" "))
        }
        Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t }) => format!("ecc {} {}", bits(eccentricity), bits(t)),
        Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t }) => format!("pert {} {}", bits(eccentricity), bits(t)),
        Err(sgp4::Error::NegativeSemiLatusRectum { t }) => format!("semi {}", bits(t)),
    }
}

fn predictions(out: &mut Vec<String>, c: &sgp4::Constants, times: &[f64]) {
    out.push(format!("resonant {}", c.initial_state().is_some()));
    for &t in times {
        out.push(format!("p {}", prediction(c.propagate(sgp4::MinutesSinceEpoch(t)))));
        out.push(format!("p {}", prediction(c.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t)))));
    }
    if let Some(mut state) = c.initial_state() {
        for &t in times {
            // away from the epoch on one side only
            if t.is_sign_negative() == times[0].is_sign_negative() && t.abs() >= state_time(&state).abs() {
                let r = c.propagate_from_state(sgp4::MinutesSinceEpoch(t), Some(&mut state), false);
                out.push(format!("s {}", prediction(r)));
            } else {
                out.push("s skipped".into());
            }
        }
    }
}
fn state_time(state: &sgp4::ResonanceState) -> f64 {
    state.t()
}

fn orbit(v: &[f64]) -> sgp4::Orbit {
    sgp4::Orbit {
        inclination: v[0],
        right_ascension: v[1],
        eccentricity: v[2],
        argument_of_perigee: v[3],
        mean_anomaly: v[4],
        mean_motion: v[5],
    }
}
fn geopotential(v: &[f64]) -> sgp4::Geopotential {
    sgp4::Geopotential { ae: v[0], ke: v[1], j2: v[2], j3: v[3], j4: v[4] }
}

fn execute(out: &mut Vec<String>, words: &[&str]) {
    match words[0] {
        "tle" => {
            let (l1, l2) = (bytes(words[1]), bytes(words[2]));
            let times: Vec<f64> = words[3..].iter().map(|w| number(w)).collect();
            #[cfg(feature = "has_alloc")]
            let got = sgp4::Elements::from_tle(None, &l1, &l2);
            #[cfg(not(feature = "has_alloc"))]
            let got = sgp4::Elements::from_tle(&l1, &l2);
            match got {
                Err(e) => out.push(format!("error {}", error(&e))),
                Ok(e) => {
                    out.push(format!("elements {}", elements(&e)));
                    out.push(format!("epoch {} {}", bits(e.epoch()), bits(e.epoch_afspc_compatibility_mode())));
                    match e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(times[0])) {
                        Ok(d) => {
                            out.push(format!("date {d:?}"));
                            match e.datetime_to_minutes_since_epoch(&d) {
                                Ok(t) => out.push(format!("minutes {}", bits(t.0))),
                                Err(x) => out.push(format!("minutes {x:?} {x}")),
                            }
                        }
                        Err(x) => out.push(format!("date {x:?} {x}")),
                    }
                    for built in [sgp4::Constants::from_elements(&e), sgp4::Constants::from_elements_afspc_compatibility_mode(&e)] {
                        match built {
                            Ok(c) => {
                                out.push("build ok".into());
                                predictions(out, &c, &times);
                            }
                            Err(x) => out.push(format!("build {x:?} {x}")),
                        }
                    }
                }
            }
        }
        "sat" => {
            let v: Vec<f64> = words[1..].iter().map(|w| number(w)).collect();
            let gsto = v[6];
            match sgp4::Constants::new(geopotential(&v[0..5]), move |_| gsto, v[5], v[7], orbit(&v[8..14])) {
                Ok(c) => {
                    out.push("build ok".into());
                    predictions(out, &c, &v[14..]);
                }
                Err(x) => out.push(format!("build {x:?} {x}")),
            }
        }
        "kozai" => {
            let v: Vec<f64> = words[1..].iter().map(|w| number(w)).collect();
            match sgp4::Orbit::from_kozai_elements(&geopotential(&v[0..5]), v[5], v[6], v[7], v[8], v[9], v[10]) {
                Ok(o) => out.push(format!(
                    "orbit {} {} {} {} {} {}",
                    bits(o.inclination),
                    bits(o.right_ascension),
                    bits(o.eccentricity),
                    bits(o.argument_of_perigee),
                    bits(o.mean_anomaly),
                    bits(o.mean_motion)
                )),
                Err(x) => out.push(format!("refused {x:?} {x}")),
            }
        }
        "years" => {
            let y = number(words[1]);
            out.push(format!("sidereal {} {}", bits(sgp4::iau_epoch_to_sidereal_time(y)), bits(sgp4::afspc_epoch_to_sidereal_time(y))));
        }
        "list" => {
            #[cfg(feature = "has_alloc")]
            {
                let text = String::from_utf8(bytes(words[2])).expect("text");
                let got = if words[1] == "2" { sgp4::parse_2les(&text) } else { sgp4::parse_3les(&text) };
                match got {
                    Ok(v) => {
                        for e in &v {
                            out.push(format!("entry {}", elements(e)));
                        }
                        out.push("end".into());
                    }
                    Err(e) => out.push(format!("error {}", error(&e))),
                }
            }
            #[cfg(not(feature = "has_alloc"))]
            out.push("absent".into());
        }
        "json" => {
            #[cfg(feature = "has_serde")]
            match serde_json::from_slice::<sgp4::Elements>(&bytes(words[1])) {
                Ok(e) => out.push(format!("elements {}", elements(&e))),
                Err(e) => out.push(format!("error {e}")),
            }
            #[cfg(not(feature = "has_serde"))]
            out.push("absent".into());
        }
        "models" => {
            for g in [sgp4::WGS72, sgp4::WGS84] {
                out.push(format!("model {} {} {} {} {}", bits(g.ae), bits(g.ke), bits(g.j2), bits(g.j3), bits(g.j4)));
            }
        }
        other => panic!("unknown request {other}"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let input = std::io::stdin().lock();
    let mut output = std::io::BufWriter::new(std::io::stdout().lock());
    for line in input.lines() {
        let line = line.expect("request");
        let words: Vec<&str> = line.split(' ').collect();
        let mut out = Vec::new();
        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(&mut out, &words)));
        if let Err(e) = result {
            let text = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            out.push(format!("panic {}", text.replace('\n', " ")));
        }
        writeln!(output, "{}", out.join("\t").replace('\n', " ")).expect("output");
    }
}
