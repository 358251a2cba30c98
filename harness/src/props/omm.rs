//! C12, C13: OMM decoding and serialisation.
use crate::core::{hash_str, Mon, Property};
use crate::oracle::{self, Got};
use crate::rng::Rng;
use crate::tlegen::{self, elements_differ};
use crate::{gen, omm};
use serde_json::{json, Value};

pub static C12: Property = Property {
    id: "C12",
    rule: "distinct (field encodings, epoch digits, optional fields, white space style, extra keys) of accepted objects and (field, kind of defect) of rejected objects",
    cases: [5000, 80000],
    case: c12,
    fixed: Some(c12_fixed),
};

pub static C13: Property = Property {
    id: "C13",
    rule: "distinct (type of value, kind of propagator, mode, sign and magnitude of the time, outcome) combinations that were serialised, restored and compared",
    cases: [15000, 180000],
    case: c13,
    fixed: None,
};

fn decode(m: &mut Mon, way: u64, s: &str) -> Option<Result<sgp4::Elements, String>> {
    let detail = || json!({"json": s, "way": way});
    m.eval();
    m.call("decoding an OMM", detail, || match way {
        0 => serde_json::from_str::<sgp4::Elements>(s).map_err(|e| e.to_string()),
        1 => serde_json::from_slice::<sgp4::Elements>(s.as_bytes()).map_err(|e| e.to_string()),
        2 => serde_json::from_reader::<_, sgp4::Elements>(s.as_bytes()).map_err(|e| e.to_string()),
        _ => serde_json::from_str::<Value>(s)
            .and_then(serde_json::from_value::<sgp4::Elements>)
            .map_err(|e| e.to_string()),
    })
}

fn accepted(m: &mut Mon, way: u64, s: &str, expected: &sgp4::Elements, limit: u64) -> Option<sgp4::Elements> {
    match decode(m, way, s)? {
        Err(e) => {
            m.violate(format!("a valid OMM was refused: {e}"), json!({"json": s}));
            None
        }
        Ok(got) => {
            if let Some(d) = elements_differ(&got, expected, limit, 0) {
                m.violate(format!("decoded and written values differ in {d}"), json!({"json": s}));
                return None;
            }
            Some(got)
        }
    }
}

fn refused(m: &mut Mon, way: u64, what: &str, key: &str, s: &str) -> bool {
    match decode(m, way, s) {
        None => false,
        Some(Ok(e)) => {
            m.violate(format!("an OMM with {what} in {key} was accepted as {e:?}"), json!({"json": s}));
            false
        }
        Some(Err(_)) => {
            m.cell(&[99, hash_str(what), hash_str(key), way]);
            m.count(&format!("refused: {what}"));
            true
        }
    }
}

fn replaced(pairs: &[(String, String)], key: &str, value: &str) -> Vec<(String, String)> {
    let mut out = pairs.to_vec();
    for p in out.iter_mut() {
        if p.0 == key {
            p.1 = value.to_string();
        }
    }
    out
}

const NOT_NUMBERS: [&str; 12] = [
    "null", "true", "false", "[]", "[1]", "{}", "{\"a\":1}", "\"\"", "\"abc\"", "\"1.5.2\"", "\"12 34\"", "\"--1\"",
];
const NOT_COUNTS: [&str; 11] = [
    "-1", "1.5", "-0.5", "1e30", "18446744073709551616", "\"18446744073709551616\"", "\"-1\"", "\"1.5\"", "\"0x10\"", "\"1e3\"", "\"99999999999999999999999\"",
];
const NOT_FLOATS: [&str; 11] = ["1e400", "-1e400", "\"1e400\"", "\"-1e999\"", "\"nan\"", "\"NaN\"", "\"inf\"", "\"-infinity\"", "\"1,5\"", "\"0x1p3\"", "\"1e\""];
const NOT_TYPES: [&str; 12] = ["256", "257", "260", "1000", "65536", "4294967296", "\"256\"", "\"300\"", "-1", "\"-1\"", "0.5", "1e3"];
const NOT_CLASSES: [&str; 10] = ["null", "1", "\"\"", "\"T\"", "\"u\"", "\"UU\"", "\"Unclassified\"", "true", "[]", "\" U\""];
const NOT_DATES: [&str; 22] = [
    "null",
    "0",
    "2459000.5",
    "true",
    "[]",
    "{}",
    "\"\"",
    "\"abc\"",
    "\"2020-07-12\"",
    "\"2020-13-01T00:00:00\"",
    "\"2020-00-01T00:00:00\"",
    "\"2020-02-30T00:00:00\"",
    "\"2021-02-29T00:00:00\"",
    "\"1900-02-29T00:00:00\"",
    "\"2020-04-31T00:00:00\"",
    "\"2020-01-00T00:00:00\"",
    "\"2020-01-01T24:00:00\"",
    "\"2020-01-01T25:00:00\"",
    "\"2020-01-01T00:60:00\"",
    "\"2020-01-01T00:00:61\"",
    "\"2020-01-01T00:00:00 garbage\"",
    "\"20-01-01\"",
];
const NOT_TEXTS: [&str; 6] = ["1", "-2.5", "true", "[]", "{}", "[\"a\"]"];

fn c12(m: &mut Mon, r: &mut Rng) {
    let o = omm::generate(r);
    let style = r.below(3);
    let mut pairs = o.pairs.clone();
    let extra = omm::extra(r, &mut pairs);
    let s = omm::render(r, &pairs, style);
    let way = r.below(4);
    if accepted(m, way, &s, &o.expected, o.limit).is_none() {
        return;
    }
    let mut key = vec![12, style, extra.min(1), way];
    key.extend(&o.class);
    m.cell(&key);
    m.count("objects compared field by field");
    m.sample(|| json!({"json": s}));
    // another order and spacing, another way in
    omm::shuffle(r, &mut pairs);
    let again = omm::render(r, &pairs, 2);
    if accepted(m, (way + 1) % 4, &again, &o.expected, o.limit).is_none() {
        return;
    }
    defects(m, r, &o.pairs);
    list(m, r);
    twin(m, r);
}

/// a sample of the defects at every field
fn defects(m: &mut Mon, r: &mut Rng, pairs: &[(String, String)]) {
    let way = r.below(4);
    for key in omm::REQUIRED {
        let without: Vec<(String, String)> = pairs.iter().filter(|(k, _)| k != key).cloned().collect();
        let s = omm::render(r, &without, 0);
        if !refused(m, way, "a missing key", key, &s) {
            return;
        }
    }
    let one = |m: &mut Mon, r: &mut Rng, what: &str, key: &str, values: &[&str]| -> bool {
        let v = r.pick(values);
        let s = omm::render(r, &replaced(pairs, key, v), 0);
        refused(m, way, what, key, &s)
    };
    for key in omm::FLOATS {
        if !one(m, r, "no number", key, &NOT_NUMBERS) || !one(m, r, "a number that is not a double", key, &NOT_FLOATS) {
            return;
        }
    }
    for key in omm::COUNTS {
        if !one(m, r, "no number", key, &NOT_NUMBERS) || !one(m, r, "a number that is not a count", key, &NOT_COUNTS) {
            return;
        }
    }
    let _ = one(m, r, "no number", "EPHEMERIS_TYPE", &NOT_NUMBERS)
        && one(m, r, "a number that does not fit", "EPHEMERIS_TYPE", &NOT_TYPES)
        && one(m, r, "an unknown class", "CLASSIFICATION_TYPE", &NOT_CLASSES)
        && one(m, r, "no date", "EPOCH", &NOT_DATES);
    // a small number beyond the range of the type
    let v = match r.below(3) {
        0 => 256 + r.below(1000),
        1 => 256 * (1 + r.below(100_000)),
        _ => r.u64() | 256,
    };
    let v = if r.chance(0.5) { v.to_string() } else { format!("\"{v}\"") };
    let s = omm::render(r, &replaced(pairs, "EPHEMERIS_TYPE", &v), 0);
    refused(m, way, "a number that does not fit", "EPHEMERIS_TYPE", &s);
    for key in ["OBJECT_NAME", "OBJECT_ID"] {
        if pairs.iter().any(|(k, _)| k == key) {
            one(m, r, "no text", key, &NOT_TEXTS);
        }
    }
}

fn list(m: &mut Mon, r: &mut Rng) {
    let n = r.below(8);
    let objects: Vec<omm::Omm> = (0..n).map(|_| omm::generate(r)).collect();
    let mut texts: Vec<String> = objects.iter().map(|o| omm::render(r, &o.pairs, 0)).collect();
    let bad = if n > 0 && r.chance(0.3) { Some(r.below(n) as usize) } else { None };
    if let Some(k) = bad {
        let key = r.pick(&omm::REQUIRED);
        texts[k] = omm::render(r, &replaced(&objects[k].pairs, key, "{}"), 0);
    }
    let s = format!("[{}]", texts.join(if r.chance(0.5) { "," } else { " ,\n " }));
    let way = r.below(2);
    let Some(got) = m.call("decoding an OMM list", || json!({"json": s}), || {
        if way == 0 {
            serde_json::from_str::<Vec<sgp4::Elements>>(&s).map_err(|e| e.to_string())
        } else {
            serde_json::from_str::<Value>(&s)
                .and_then(serde_json::from_value::<Vec<sgp4::Elements>>)
                .map_err(|e| e.to_string())
        }
    }) else {
        return;
    };
    m.eval();
    match (got, bad) {
        (Ok(v), None) => {
            if v.len() != objects.len() {
                m.violate(format!("{n} objects gave {} entries", v.len()), json!({"json": s}));
                return;
            }
            for (k, (e, o)) in v.iter().zip(&objects).enumerate() {
                if let Some(d) = elements_differ(e, &o.expected, o.limit, 0) {
                    m.violate(format!("entry {k} of a list differs in {d}"), json!({"json": s}));
                    return;
                }
            }
            m.cell(&[121, n, way]);
        }
        (Err(e), None) => m.violate(format!("a valid OMM list was refused: {e}"), json!({"json": s})),
        (Ok(_), Some(k)) => m.violate(format!("a list with an invalid object at {k} was accepted"), json!({"json": s})),
        (Err(_), Some(_)) => m.cell(&[122, n, way]),
    }
}

/// the same data as a TLE and as an OMM
fn twin(m: &mut Mon, r: &mut Rng) {
    let t = tlegen::generate(r);
    let pairs = omm::from_tle(r, &t);
    let s = omm::render(r, &pairs, 0);
    let detail = || json!({"json": s, "line1": tlegen::text(&t.line1), "line2": tlegen::text(&t.line2)});
    let Some(a) = m.call("Elements::from_tle", detail, || sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2)) else { return };
    let Some(b) = decode(m, r.below(4), &s) else { return };
    match (a, b) {
        (Ok(a), Ok(b)) => {
            // the exponent of a TLE is applied by a multiplication, its epoch is a fraction of a day
            if let Some(d) = elements_differ(&a, &b, 8, 6) {
                m.violate(format!("TLE and OMM with the same data differ in {d}"), detail());
            }
            m.count("TLE and OMM pairs compared");
        }
        (a, b) => m.violate(format!("TLE: {:?}, OMM: {:?}", a.map(|_| ()).map_err(|e| e.to_string()), b.map(|_| ())), detail()),
    }
}

/// every listed defect at every field, and documented examples
fn c12_fixed(m: &mut Mon, index: u64) -> bool {
    let mut r = Rng::new(1212, index);
    let keys: Vec<&str> = omm::REQUIRED.iter().copied().chain(["OBJECT_NAME", "OBJECT_ID"]).collect();
    if index as usize >= keys.len() {
        return false;
    }
    let key = keys[index as usize];
    let o = loop {
        let o = omm::generate(&mut r);
        if o.pairs.iter().any(|(k, _)| k == key) {
            break o;
        }
    };
    let mut values: Vec<&str> = Vec::new();
    if omm::FLOATS.contains(&key) {
        values.extend(NOT_NUMBERS);
        values.extend(NOT_FLOATS);
    } else if omm::COUNTS.contains(&key) {
        values.extend(NOT_NUMBERS);
        values.extend(NOT_COUNTS);
    } else if key == "EPHEMERIS_TYPE" {
        values.extend(NOT_NUMBERS);
        values.extend(NOT_COUNTS);
        values.extend(NOT_TYPES);
    } else if key == "CLASSIFICATION_TYPE" {
        values.extend(NOT_CLASSES);
    } else if key == "EPOCH" {
        values.extend(NOT_DATES);
    } else {
        values.extend(NOT_TEXTS);
    }
    for v in values {
        for way in 0..4 {
            let s = omm::render(&mut r, &replaced(&o.pairs, key, v), 0);
            refused(m, way, v, key, &s);
        }
    }
    true
}

// ---- serialisation ----

fn finite(e: &sgp4::Elements) -> bool {
    [
        e.mean_motion,
        e.eccentricity,
        e.inclination,
        e.right_ascension,
        e.argument_of_perigee,
        e.mean_anomaly,
        e.drag_term,
        e.mean_motion_dot,
        e.mean_motion_ddot,
    ]
    .iter()
    .all(|x| x.is_finite())
}

fn extreme(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MAX,
        3 => f64::MIN_POSITIVE,
        4 => f64::from_bits(1),
        5 => -f64::MAX,
        6 | 7 => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                break x;
            }
        },
        _ => r.uni(-400.0, 400.0),
    }
}

/// serialises and restores in the given way; None after a violation
fn round<T: serde::Serialize + serde::de::DeserializeOwned>(m: &mut Mon, what: &str, way: u64, x: &T) -> Option<T> {
    let got = m.call(&format!("serialising {what}"), || json!({"what": what, "way": way}), || match way {
        0 => serde_json::to_value(x)
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
        1 => serde_json::to_string(x)
            .and_then(|s| serde_json::from_str(&s))
            .map_err(|e| e.to_string()),
        2 => serde_json::to_vec_pretty(x)
            .and_then(|s| serde_json::from_slice(&s))
            .map_err(|e| e.to_string()),
        // text, then a tree with the keys sorted
        _ => serde_json::to_value(x)
            .and_then(|v| serde_json::to_string(&v))
            .and_then(|s| serde_json::from_str::<Value>(&s))
            .and_then(serde_json::from_value)
            .map_err(|e| e.to_string()),
    })?;
    m.eval();
    match got {
        Ok(v) => Some(v),
        Err(e) => {
            m.violate(
                format!("{what} cannot be restored: {e}"),
                json!({"what": what, "way": way, "serialised": serde_json::to_value(x).unwrap_or(Value::Null)}),
            );
            None
        }
    }
}

/// Numbers of a text are read back to within this many units in the last place (the reader is not the code under test)
fn allowed(way: u64) -> u64 {
    if way == 0 {
        0
    } else {
        4
    }
}

fn floats_differ(a: &[f64], b: &[f64], limit: u64) -> bool {
    a.iter().zip(b).any(|(x, y)| x.to_bits() != y.to_bits() && (limit == 0 || tlegen::ulps(*x, *y) > limit))
}

fn orbit_floats(o: &sgp4::Orbit) -> [f64; 6] {
    [o.inclination, o.right_ascension, o.eccentricity, o.argument_of_perigee, o.mean_anomaly, o.mean_motion]
}

fn c13(m: &mut Mon, r: &mut Rng) {
    let way = if r.chance(0.4) { 0 } else { r.below(4) };
    match r.below(10) {
        0 | 1 => elements(m, r, way),
        2 => plain(m, r, way),
        _ => propagator(m, r, way),
    }
}

fn elements(m: &mut Mon, r: &mut Rng, way: u64) {
    let mut e = if r.chance(0.5) {
        omm::generate(r).expected
    } else {
        let t = tlegen::generate(r);
        match sgp4::Elements::from_tle(t.name.clone(), &t.line1, &t.line2) {
            Ok(e) => e,
            Err(_) => return, // C08's business
        }
    };
    let wild = r.chance(0.3);
    if wild {
        for f in [&mut e.mean_motion, &mut e.drag_term, &mut e.inclination, &mut e.mean_motion_ddot, &mut e.eccentricity, &mut e.mean_motion_dot, &mut e.right_ascension, &mut e.argument_of_perigee, &mut e.mean_anomaly] {
            if r.chance(0.5) {
                *f = extreme(r);
            }
        }
    }
    if !finite(&e) {
        return;
    }
    if r.chance(0.1) {
        use sgp4::chrono::Datelike;
        e.datetime = e.datetime.with_year(r.range(1, 9999) as i32).unwrap_or(e.datetime);
    }
    let mut x = e.clone();
    let limit = if way == 0 { 0 } else if wild { 16 } else { 4 };
    for turn in 0..1 + r.below(3) {
        let Some(back) = round(m, "elements", way, &x) else { return };
        if let Some(d) = elements_differ(&back, &e, limit * (turn + 1), 0) {
            m.violate(format!("elements changed by serialisation: {d}"), json!({"way": way, "elements": format!("{e:?}")}));
            return;
        }
        x = back;
    }
    // a tree is exact to the sign of zero
    if way == 0 && (x.mean_motion.to_bits() != e.mean_motion.to_bits() || x.drag_term.to_bits() != e.drag_term.to_bits()) {
        m.violate("the sign of a zero was lost by serialisation".into(), json!({"elements": format!("{e:?}")}));
    }
    // standard keys
    let Some(v) = m.call("serialising elements", || json!({}), || serde_json::to_value(&e)) else { return };
    m.eval();
    let Ok(Value::Object(map)) = v else {
        m.violate("elements do not serialise to an object".into(), json!({"elements": format!("{e:?}")}));
        return;
    };
    let detail = || json!({"serialised": map, "elements": format!("{e:?}")});
    for key in omm::REQUIRED {
        if !map.contains_key(key) {
            m.violate(format!("serialised elements lack {key}"), detail());
            return;
        }
    }
    let number = |k: &str| -> f64 {
        match &map[k] {
            Value::Number(n) => n.as_f64().unwrap_or(f64::NAN),
            Value::String(s) => s.parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }
    };
    for (key, value) in [
        ("MEAN_MOTION", e.mean_motion),
        ("ECCENTRICITY", e.eccentricity),
        ("INCLINATION", e.inclination),
        ("RA_OF_ASC_NODE", e.right_ascension),
        ("ARG_OF_PERICENTER", e.argument_of_perigee),
        ("MEAN_ANOMALY", e.mean_anomaly),
        ("BSTAR", e.drag_term),
        ("MEAN_MOTION_DOT", e.mean_motion_dot),
        ("MEAN_MOTION_DDOT", e.mean_motion_ddot),
    ] {
        if number(key) != value {
            m.violate(format!("serialised {key} is {}, the value is {value:e}", map[key]), detail());
            return;
        }
    }
    let integer = |k: &str| match &map[k] {
        Value::Number(n) => n.as_u64(),
        Value::String(s) => s.parse().ok(),
        _ => None,
    };
    for (key, value) in [
        ("NORAD_CAT_ID", e.norad_id),
        ("ELEMENT_SET_NO", e.element_set_number),
        ("REV_AT_EPOCH", e.revolution_number),
        ("EPHEMERIS_TYPE", e.ephemeris_type as u64),
    ] {
        if integer(key) != Some(value) {
            m.violate(format!("serialised {key} is {}, the value is {value}", map[key]), detail());
            return;
        }
    }
    for (key, value) in [("OBJECT_NAME", &e.object_name), ("OBJECT_ID", &e.international_designator)] {
        let got = map.get(key).unwrap_or(&Value::Null);
        let same = match value {
            None => got.is_null(),
            Some(s) => got.as_str() == Some(s),
        };
        if !same {
            m.violate(format!("serialised {key} is {got}, the value is {value:?}"), detail());
            return;
        }
    }
    let class = match e.classification {
        sgp4::Classification::Unclassified => "U",
        sgp4::Classification::Classified => "C",
        sgp4::Classification::Secret => "S",
    };
    if map["CLASSIFICATION_TYPE"].as_str() != Some(class) {
        m.violate(format!("serialised CLASSIFICATION_TYPE is {}", map["CLASSIFICATION_TYPE"]), detail());
        return;
    }
    let date = map["EPOCH"].as_str().unwrap_or("").parse::<sgp4::chrono::NaiveDateTime>();
    if date.ok() != Some(e.datetime) {
        m.violate(format!("serialised EPOCH is {}, the date is {}", map["EPOCH"], e.datetime), detail());
        return;
    }
    m.cell(&[130, way, wild as u64, e.object_name.is_some() as u64, e.international_designator.is_some() as u64]);
    m.count("elements round trips");
}

fn plain(m: &mut Mon, r: &mut Rng, way: u64) {
    let wild = r.chance(0.5);
    let mut f = || if wild { extreme(r) } else { r.uni(-10.0, 10.0) };
    let o = sgp4::Orbit {
        inclination: f(),
        right_ascension: f(),
        eccentricity: f(),
        argument_of_perigee: f(),
        mean_anomaly: f(),
        mean_motion: f(),
    };
    let g = sgp4::Geopotential { ae: f(), ke: f(), j2: f(), j3: f(), j4: f() };
    let p = sgp4::Prediction { position: [f(), f(), f()], velocity: [f(), f(), f()] };
    let limit = if way == 0 { 0 } else { allowed(way) * if wild { 4 } else { 1 } };
    if let Some(b) = round(m, "an orbit", way, &o) {
        if floats_differ(&orbit_floats(&o), &orbit_floats(&b), limit) {
            m.violate(format!("an orbit changed: {o:?} became {b:?}"), json!({"way": way}));
        }
    }
    if let Some(b) = round(m, "a gravity model", way, &g) {
        if floats_differ(&[g.ae, g.ke, g.j2, g.j3, g.j4], &[b.ae, b.ke, b.j2, b.j3, b.j4], limit) {
            m.violate(format!("a gravity model changed: {g:?} became {b:?}"), json!({"way": way}));
        }
    }
    if let Some(b) = round(m, "a prediction", way, &p) {
        if floats_differ(&p.position, &b.position, limit) || floats_differ(&p.velocity, &b.velocity, limit) {
            m.violate(format!("a prediction changed: {p:?} became {b:?}"), json!({"way": way}));
        }
    }
    m.cell(&[131, way, wild as u64]);
    m.count("orbit, gravity model and prediction round trips");
}

fn same(a: &Got, b: &Got) -> bool {
    a.bits() == b.bits()
}

fn propagator(m: &mut Mon, r: &mut Rng, way: u64) {
    let mut s = gen::sat_any(r);
    if r.chance(0.3) {
        s.geo = if r.chance(0.5) { crate::refm::REF_WGS84 } else { crate::refm::REF_WGS72 };
    }
    let detail = || oracle::sat_json(&s);
    let Some(Ok(c)) = m.call("Constants::new", detail, || oracle::constants(&s)) else { return };
    let tree = serde_json::to_value(&c);
    // infinite constants have no JSON form
    if !tree.as_ref().map(no_null).unwrap_or(true) {
        m.count("propagators with constants that are not finite");
        return;
    }
    let Some(back) = round(m, "a propagator", way, &c) else { return };
    let back = if r.chance(0.3) {
        match round(m, "a restored propagator", way, &back) {
            Some(b) => b,
            None => return,
        }
    } else {
        back
    };
    if way == 0 {
        if let (Ok(a), Ok(b)) = (tree, serde_json::to_value(&back)) {
            if a != b {
                m.violate("a restored propagator serialises differently".into(), json!({"sat": detail(), "before": a, "after": b}));
                return;
            }
        }
        if format!("{c:?}") != format!("{back:?}") {
            m.violate("a restored propagator differs in its Debug form".into(), detail());
            return;
        }
    }
    let kind = gen::is_resonant(&s.orb) as u64 + 4 * (s.orb.n > gen::NEAR) as u64;
    for _ in 0..3 {
        let t = if gen::is_resonant(&s.orb) != 0 && r.chance(0.7) { gen::step_time(r, 200) } else { gen::time(r).clamp(-2e6, 2e6) };
        for afspc in [false, true] {
            let Some(a) = m.call("propagate", detail, || oracle::run(&c, t, afspc)) else { return };
            let Some(b) = m.call("propagate (restored)", detail, || oracle::run(&back, t, afspc)) else { return };
            m.eval();
            let class = a.class() as u64;
            let ok = if way == 0 {
                same(&a, &b)
            } else {
                // numbers read from text may be off by a unit in the last place
                same(&a, &b) || !matches!(oracle::verdict(&s, t, afspc, 6, &b).1, oracle::Cmp::Mismatch(_))
            };
            if !ok {
                m.violate(
                    format!("at t = {t:e} the original gives {}, the restored propagator {}", a.json(), b.json()),
                    json!({"sat": detail(), "t": crate::core::fx(t), "afspc": afspc, "way": way}),
                );
                return;
            }
            let mag = if t == 0.0 { 0 } else { (t.abs().log10().floor() as i64 + 20) as u64 };
            m.cell(&[132, way, kind, afspc as u64, (t < 0.0) as u64, mag, class]);
        }
    }
    // continuing from a state
    let Some(state) = m.call("initial_state", detail, || (c.initial_state(), back.initial_state())) else { return };
    if state.0.is_some() != state.1.is_some() {
        m.violate("the restored propagator differs in having a resonance state".into(), detail());
        return;
    }
    if way == 0 {
        if let (Some(mut a), Some(mut b)) = state {
            let mut t = 0.0;
            for _ in 0..4 {
                t += r.uni(0.0, 3000.0);
                let Some(x) = m.call("propagate_from_state", detail, || Got::from(c.propagate_from_state(sgp4::MinutesSinceEpoch(t), Some(&mut a), true))) else { return };
                let Some(y) = m.call("propagate_from_state", detail, || Got::from(back.propagate_from_state(sgp4::MinutesSinceEpoch(t), Some(&mut b), true))) else { return };
                m.eval();
                if !same(&x, &y) || a.t().to_bits() != b.t().to_bits() {
                    m.violate(format!("histories differ at {t}: {} and {}", x.json(), y.json()), detail());
                    return;
                }
            }
        }
    }
    m.count("propagator round trips");
}

fn no_null(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Array(a) => a.iter().all(no_null),
        Value::Object(o) => o.values().all(no_null),
        _ => true,
    }
}
