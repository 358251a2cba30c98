//! C18: the feature configurations agree. The requests are executed by programs built with each configuration
//! (see ../../probe) whose outcomes are compared with those of the default configuration.
use crate::core::{fx, hash_str, Mon, Property};
use crate::gen;
use crate::omm;
use crate::oracle::{self, compare_two, judge_with, Cmp, Got};
use crate::props::hostile;
use crate::props::init::{expected_motion, rounded};
use crate::refm::{Orb, Sat, REF_WGS72, REF_WGS84};
use crate::rng::Rng;
use crate::sidereal;
use crate::tlegen;
use serde_json::{json, Value};
use std::f64::consts::PI;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

pub static C18: Property = Property {
    id: "C18",
    rule: "distinct (configuration, kind of request, orbit class, mode, sign and magnitude of the time or kind of refusal, bit-identical or within rounding) combinations compared with the default configuration",
    cases: [36, 360],
    case: c18,
    fixed: Some(c18_fixed),
};

const DEFAULT: &str = "std_serde";
const BATCH: usize = 60;

fn probes() -> Vec<(String, String)> {
    let list = std::env::var("VH_PROBES").unwrap_or_default();
    let found: Vec<(String, String)> =
        list.split(';').filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if !found.iter().any(|(n, _)| n == DEFAULT) {
        eprintln!("VH_PROBES does not name the programs of the configurations");
        std::process::exit(3);
    }
    found
}

enum Outcome {
    Lines(Vec<String>),
    Died(String),
}

/// Runs one program on the requests, with a limit on its processor time
fn execute(path: &str, requests: &str) -> Outcome {
    let spawned = Command::new("/bin/sh")
        .args(["-c", "ulimit -t 60; ulimit -c 0; exec \"$0\"", path])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut child = match spawned {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{path}: {e}");
            std::process::exit(3);
        }
    };
    let mut stdin = child.stdin.take().expect("piped");
    let mut text = String::new();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(requests.as_bytes());
        });
        let mut bytes = Vec::new();
        let _ = child.stdout.take().expect("piped").read_to_end(&mut bytes);
        text = String::from_utf8_lossy(&bytes).into_owned();
    });
    let status = child.wait().expect("child");
    if status.success() {
        Outcome::Lines(text.lines().map(|l| l.to_string()).collect())
    } else if status.code() == Some(126) || status.code() == Some(127) {
        eprintln!("{path} cannot be executed");
        std::process::exit(3);
    } else {
        Outcome::Died(format!("{status} after {} answers", text.lines().count()))
    }
}

enum Item {
    /// lines, times, satellites of the two recipes
    Tle(Vec<u8>, Vec<u8>, Vec<f64>, Vec<Option<Sat>>),
    Sat(Sat, Vec<f64>),
    Kozai(Sat),
    Years(f64),
    List(u8, String),
    Json(Vec<u8>),
    Models,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

impl Item {
    fn request(&self) -> String {
        let words = |v: &[f64]| v.iter().map(|x| bits(*x)).collect::<Vec<_>>().join(" ");
        let geo = |s: &Sat| words(&[s.geo.ae, s.geo.ke, s.geo.j2, s.geo.j3, s.geo.j4]);
        let orb = |s: &Sat| words(&[s.orb.i, s.orb.node, s.orb.e, s.orb.argp, s.orb.m, s.orb.n]);
        match self {
            Item::Tle(a, b, times, _) => format!("tle {} {} {}", hex(a), hex(b), words(times)),
            Item::Sat(s, times) => {
                format!("sat {} {} {} {}", geo(s), words(&[s.epoch, s.gsto, s.bstar]), orb(s), words(times))
            }
            Item::Kozai(s) => format!("kozai {} {}", geo(s), orb(s)),
            Item::Years(y) => format!("years {}", bits(*y)),
            Item::List(n, t) => format!("list {n} {}", hex(t.as_bytes())),
            Item::Json(b) => format!("json {}", hex(b)),
            Item::Models => "models".into(),
        }
    }
    fn json(&self) -> Value {
        match self {
            Item::Tle(a, b, t, _) => json!({"line1": tlegen::text(a), "line2": tlegen::text(b), "times": t, "request": self.request()}),
            Item::Sat(s, t) => json!({"satellite": oracle::sat_json(s), "times": t, "request": self.request()}),
            Item::Kozai(s) => json!({"kozai elements": oracle::sat_json(s)}),
            Item::Years(y) => json!({"epoch": fx(*y)}),
            Item::List(n, t) => json!({"lines per entry": n, "text": t}),
            Item::Json(b) => json!({"omm": tlegen::text(b)}),
            Item::Models => json!({}),
        }
    }
}

fn times(r: &mut Rng) -> Vec<f64> {
    let n = 1 + r.below(3);
    let mut v: Vec<f64> = (0..n)
        .map(|_| if r.chance(0.3) { gen::step_time(r, 60) } else { gen::time(r).clamp(-2.0e5, 2.0e5) })
        .collect();
    v.sort_by(|a, b| a.abs().total_cmp(&b.abs()));
    v
}

fn catalogue(r: &mut Rng, l1: Vec<u8>, l2: Vec<u8>) -> Item {
    let sats = match sgp4::Elements::from_tle(None, &l1, &l2) {
        Err(_) => vec![None, None],
        Ok(e) => [false, true]
            .iter()
            .map(|afspc| {
                let (geo, epoch) = if *afspc { (REF_WGS72, e.epoch_afspc_compatibility_mode()) } else { (REF_WGS84, e.epoch()) };
                let (i, n) = (e.inclination * (PI / 180.0), e.mean_motion * (PI / 720.0));
                let Some(Ok((motion, _))) = expected_motion(&geo, i, e.eccentricity, n) else { return None };
                Some(Sat {
                    geo,
                    epoch,
                    gsto: if *afspc { sidereal::afspc(epoch) } else { sidereal::iau(epoch) },
                    bstar: e.drag_term,
                    orb: Orb {
                        i,
                        node: e.right_ascension * (PI / 180.0),
                        e: e.eccentricity,
                        argp: e.argument_of_perigee * (PI / 180.0),
                        m: e.mean_anomaly * (PI / 180.0),
                        n: motion,
                    },
                })
            })
            .collect(),
    };
    Item::Tle(l1, l2, times(r), sats)
}

fn item(r: &mut Rng) -> Item {
    match r.below(20) {
        0..=5 => Item::Sat(gen::sat_any(r), times(r)),
        6..=8 => {
            let t = tlegen::plausible(r);
            catalogue(r, t.line1, t.line2)
        }
        9 => {
            let t = tlegen::generate(r);
            catalogue(r, t.line1, t.line2)
        }
        10..=12 => {
            // one or two damaged columns, checksum repaired or not
            let t = tlegen::generate(r);
            let (mut l1, mut l2) = (t.line1, t.line2);
            for _ in 0..1 + r.below(2) {
                let l = if r.chance(0.6) { &mut l1 } else { &mut l2 };
                let c = r.below(68) as usize;
                l[c] = r.pick(&[b' ', b'0', b'9', b'-', b'+', b'.', b'A', b'U', b'C', b'S', b'/', b':', 0x80, b'1', b'5']);
                if r.chance(0.8) {
                    tlegen::fix_checksum(l);
                }
            }
            catalogue(r, l1, l2)
        }
        13 => {
            // unusual elements
            let mut s = gen::sat_any(r);
            match r.below(4) {
                0 => s.orb.e = r.pick(&[-0.1, 1.0, 1.5, -0.0, 0.999999]),
                1 => s.bstar *= r.log_uni(10.0, 1e4),
                2 => s.orb.n *= r.log_uni(0.01, 10.0),
                _ => s.orb.i = r.uni(-7.0, 7.0),
            }
            Item::Sat(s, times(r))
        }
        14 | 15 => {
            let mut s = gen::sat_any(r);
            match r.below(6) {
                0 => s.orb.n = r.pick(&[0.0, -0.0, -0.05, 1e-9]),
                1 => s.orb.n = r.log_uni(1e-5, 10.0),
                2 => s.orb.e = 1.0 - r.log_uni(1e-6, 0.5),
                3 => s.orb.i = r.uni(-10.0, 10.0),
                _ => (),
            }
            Item::Kozai(s)
        }
        16 => Item::Years(match r.below(4) {
            0 => r.sign() * r.log_uni(1e-9, 1e4),
            1 => (r.range(-40000, 40000) as f64) / 365.25,
            _ => r.uni(-100.0, 300.0),
        }),
        17 => match hostile::make(r).0 {
            hostile::Input::Pair(a, b) => catalogue(r, a, b),
            hostile::Input::Text(t) => Item::List(2 + r.below(2) as u8, t),
            hostile::Input::Json(b) => Item::Json(b),
        },
        18 => {
            let three = r.chance(0.5);
            let end = r.pick(&["\n", "\r\n"]);
            let mut text = String::new();
            for _ in 0..1 + r.below(4) {
                let t = tlegen::generate(r);
                if three {
                    text.push_str(&tlegen::name_line(r));
                    text.push_str(end);
                }
                text.push_str(&format!("{}{end}{}{end}", tlegen::text(&t.line1), tlegen::text(&t.line2)));
            }
            Item::List(2 + three as u8, text)
        }
        _ => {
            let o = omm::generate(r);
            let style = r.below(4);
            Item::Json(omm::render(r, &o.pairs, style).into_bytes())
        }
    }
}

fn got(words: &[&str]) -> Option<Got> {
    let x = |k: usize| words.get(k).and_then(|w| u64::from_str_radix(w, 16).ok()).map(f64::from_bits);
    Some(match *words.first()? {
        "ok" => Got::Ok([x(1)?, x(2)?, x(3)?, x(4)?, x(5)?, x(6)?]),
        "ecc" => Got::ErrEcc(x(1)?, x(2)?),
        "pert" => Got::ErrPert(x(1)?, x(2)?),
        "semi" => Got::ErrSemi(x(1)?),
        _ => return None,
    })
}

/// angular distance
fn apart(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}

fn numbers(s: &str) -> Vec<f64> {
    s.split(' ').skip(1).filter_map(|w| u64::from_str_radix(w, 16).ok()).map(f64::from_bits).collect()
}

fn magnitude(t: f64) -> u64 {
    if t == 0.0 || !t.is_finite() {
        return 0;
    }
    2 * (t.abs().log10().floor() as i64 + 400) as u64 + (t < 0.0) as u64
}

/// Decoded values are the same; numbers with a power of ten may round differently
fn same_values(p: &str, q: &str, alloc: bool) -> bool {
    if p == q {
        return true;
    }
    let cut = |s: &str| if alloc { s.to_string() } else { s.split(" designator").next().unwrap_or("").to_string() };
    let (p, q) = (cut(p), cut(q));
    let (a, b): (Vec<&str>, Vec<&str>) = (p.split(' ').collect(), q.split(' ').collect());
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| {
            x == y
                || match (x.split_once('='), y.split_once('=')) {
                    (Some((k, u)), Some((l, v))) if k == l && (k == "ddot" || k == "bstar") => {
                        match (u64::from_str_radix(u, 16), u64::from_str_radix(v, 16)) {
                            (Ok(u), Ok(v)) => u.abs_diff(v) <= 8,
                            _ => false,
                        }
                    }
                    _ => false,
                }
        })
}

/// inputs of a TLE as they may be rounded
fn decoded(k: u64, s: Sat) -> Sat {
    let mut s = rounded(k, s);
    s.bstar *= 1.0 + 1.0e-15 * [1.0, -1.0, 0.0, 0.5][(k % 4) as usize];
    s
}

/// What is wrong with the answer of a configuration, given that of the default one
fn difference(m: &mut Mon, name: &str, alloc: bool, item: &Item, a: &str, b: &str) -> Option<String> {
    let config = hash_str(name);
    if b == "absent" {
        let fine = matches!((item, name), (Item::List(..), "libm") | (Item::Json(_), "libm" | "libm_alloc" | "std"));
        return if fine { None } else { Some("the request was not served".into()) };
    }
    if a == "absent" {
        return Some("the default configuration did not serve the request".into());
    }
    m.eval();
    let (ta, tb): (Vec<&str>, Vec<&str>) = (a.split('\t').collect(), b.split('\t').collect());
    // recipe being used, times already seen
    let (mut recipe, mut k, mut s) = (0usize, 0usize, 0usize);
    let mut x = 0;
    loop {
        let (Some(&p), q) = (ta.get(x), tb.get(x)) else {
            return if tb.len() > ta.len() { Some(format!("{} answers instead of {}", tb.len(), ta.len())) } else { None };
        };
        x += 1;
        let Some(&q) = q else { return Some(format!("{} answers instead of {}", tb.len(), ta.len())) };
        let tag = p.split(' ').next().unwrap_or("");
        if tag != q.split(' ').next().unwrap_or("") {
            return Some(format!("{q:?} instead of {p:?}"));
        }
        match tag {
            "build" => {
                recipe += 1;
                k = 0;
                s = 0;
                if p != q {
                    return Some(format!("{q:?} instead of {p:?}"));
                }
                if p != "build ok" {
                    m.cell(&[config, 1, hash_str(p.split_once('(').map_or(p, |y| y.0))]);
                }
            }
            "resonant" => {
                if p != q {
                    // the mean motion recovered from a TLE may round to either side of a limit
                    if let (Item::Tle(_, _, _, sats), true) = (item, recipe > 0) {
                        let near = sats[recipe - 1].as_ref().map_or(true, |y| {
                            [gen::RES1_LO, gen::RES1_HI, gen::RES2_LO, gen::RES2_HI, gen::NEAR].iter().any(|l| (y.orb.n / l - 1.0).abs() < 1e-11)
                        });
                        if near {
                            m.count("too close to a resonance limit to call");
                            return None;
                        }
                    }
                    return Some("one configuration treats the orbit as resonant, the other does not".into());
                }
            }
            "p" | "s" => {
                let (times, sat, vary): (&[f64], Option<&Sat>, fn(u64, Sat) -> Sat) = match item {
                    Item::Tle(_, _, t, sats) => (t, sats.get(recipe.wrapping_sub(1)).and_then(|y| y.as_ref()), decoded),
                    Item::Sat(y, t) => (t, Some(y), oracle::last_place),
                    _ => return Some("unexpected answer".into()),
                };
                let (t, afspc) = if tag == "p" {
                    k += 1;
                    (times[(k - 1) / 2], k % 2 == 0)
                } else {
                    s += 1;
                    (times[s - 1], false)
                };
                m.eval();
                let same = p == q;
                if !same {
                    let (Some(ga), Some(gb)) = (got(&p.split(' ').collect::<Vec<_>>()[1..]), got(&q.split(' ').collect::<Vec<_>>()[1..])) else {
                        return Some(format!("{q:?} instead of {p:?} at t = {t:e}"));
                    };
                    let Some(sat) = sat else {
                        m.count("predictions of orbits whose conversion is too close to call");
                        continue;
                    };
                    let mut verdict = compare_two(&judge_with(sat, t, afspc, 6, vary), &ga, &gb, 1.0);
                    if let Cmp::Mismatch(_) = verdict {
                        verdict = compare_two(&judge_with(sat, t, afspc, 64, vary), &ga, &gb, 3.0);
                    }
                    match verdict {
                        Cmp::Match(_) => m.count("predictions within rounding"),
                        Cmp::Fragile => {
                            m.count("too close to a branch to call");
                            continue;
                        }
                        Cmp::Mismatch(e) => return Some(format!("at t = {t:e}, AFSPC mode {afspc}, recipe {recipe}: {e}")),
                    }
                } else {
                    m.count("predictions bit-identical");
                }
                let class = p.split(' ').nth(1).unwrap_or("");
                let orbit = sat.map_or(9, |y| gen::is_resonant(&y.orb) as u64 + 4 * (y.orb.n > gen::NEAR) as u64);
                m.cell(&[config, 2, (tag == "s") as u64, hash_str(class), orbit, afspc as u64, magnitude(t), same as u64, recipe as u64]);
            }
            "epoch" => {
                for (y, z) in numbers(p).iter().zip(numbers(q)) {
                    if (y - z).abs() > 4.0 * f64::EPSILON * y.abs().max(1.0) {
                        return Some(format!("{q:?} instead of {p:?}"));
                    }
                }
            }
            "orbit" => {
                let (y, z) = (numbers(p), numbers(q));
                let Item::Kozai(sat) = item else { return Some("unexpected answer".into()) };
                if y[..5].iter().zip(&z[..5]).any(|(c, d)| c.to_bits() != d.to_bits()) {
                    return Some(format!("{q:?} instead of {p:?}"));
                }
                let Some(Ok((_, tolerance))) = expected_motion(&sat.geo, sat.orb.i, sat.orb.e, sat.orb.n) else {
                    m.count("conversion too close to call");
                    return None;
                };
                if (y[5] - z[5]).abs() > 2.0 * tolerance {
                    return Some(format!("mean motion {:e} instead of {:e}", z[5], y[5]));
                }
                m.cell(&[config, 3, magnitude(sat.orb.n), magnitude(1.0 - sat.orb.e)]);
            }
            "sidereal" => {
                let Item::Years(years) = item else { return Some("unexpected answer".into()) };
                let turns = (years.abs() + 100.0) * 365.25 * 2.0 * PI;
                for (y, z) in numbers(p).iter().zip(numbers(q)) {
                    if !(0.0..=2.0 * PI).contains(&z) || apart(*y, z) > 8.0 * f64::EPSILON * turns {
                        return Some(format!("sidereal time {z:e} instead of {y:e}"));
                    }
                }
                m.cell(&[config, 4, magnitude(*years)]);
            }
            _ => {
                if !same_values(p, q, alloc) {
                    return Some(format!("{q:?} instead of {p:?}"));
                }
                m.cell(&[config, 5, hash_str(tag), if tag == "error" { hash_str(p) } else { 0 }]);
            }
        }
    }
}

fn batch(m: &mut Mon, items: &[Item]) {
    let requests: String = items.iter().map(|i| i.request() + "\n").collect();
    let all = |e: &str| json!({"requests": requests, "what": e});
    let mut answers: Vec<(String, Vec<String>)> = Vec::new();
    let mut died: Vec<(String, String)> = Vec::new();
    for (name, path) in probes() {
        match execute(&path, &requests) {
            Outcome::Lines(v) if v.len() == items.len() => answers.push((name, v)),
            Outcome::Lines(v) => {
                eprintln!("{name}: {} answers to {} requests", v.len(), items.len());
                std::process::exit(3);
            }
            Outcome::Died(e) => died.push((name, e)),
        }
    }
    if !died.is_empty() {
        if answers.is_empty() {
            m.count("batches on which every configuration dies (judged by the other properties)");
            return;
        }
        m.violate(format!("configuration {} does not survive requests that others serve: {}", died[0].0, died[0].1), all(&died[0].1));
        return;
    }
    let base = answers.iter().find(|(n, _)| n == DEFAULT).expect("default configuration").1.clone();
    for (name, lines) in &answers {
        if name == DEFAULT {
            continue;
        }
        let alloc = name != "libm";
        for (k, i) in items.iter().enumerate() {
            if let Some(e) = difference(m, name, alloc, i, &base[k], &lines[k]) {
                m.violate(format!("configuration {name} differs from the default one: {e}"), i.json());
                return;
            }
        }
    }
    m.sample(|| json!({"request": items[0].json(), "answer": base[0].chars().take(300).collect::<String>()}));
}

fn c18(m: &mut Mon, r: &mut Rng) {
    let items: Vec<Item> = (0..BATCH).map(|_| item(r)).collect();
    batch(m, &items);
}

/// the models, and every column of a TLE with every character of a small alphabet
fn c18_fixed(m: &mut Mon, index: u64) -> bool {
    let mut r = Rng::new(1818, 0);
    let t = tlegen::plausible(&mut r);
    if index == 0 {
        batch(m, &[Item::Models]);
        return true;
    }
    if index > 2 * 68 {
        return false;
    }
    let (line, c) = ((index - 1) / 68, ((index - 1) % 68) as usize);
    let mut items = Vec::new();
    for x in [b' ', b'0', b'9', b'-', b'+', b'.', b'A', b'z', b'/', b':', 0x80, 0xc3, b'\t'] {
        for repaired in [true, false] {
            let (mut l1, mut l2) = (t.line1.clone(), t.line2.clone());
            let l = if line == 0 { &mut l1 } else { &mut l2 };
            l[c] = x;
            if repaired {
                tlegen::fix_checksum(l);
            }
            items.push(Item::Tle(l1, l2, vec![1440.0], vec![None, None]));
        }
    }
    batch(m, &items);
    true
}
