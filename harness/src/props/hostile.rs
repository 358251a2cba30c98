//! C10: arbitrary bytes and text for every parser.
use crate::core::{hash_str, Mon, Property};
use crate::omm;
use crate::props::tle::report;
use crate::rng::Rng;
use crate::tlegen::{self, fix_checksum};
use serde_json::{json, Value};

pub static C10: Property = Property {
    id: "C10",
    rule: "distinct (parser, kind of input, outcome: error kind with line and range, or accepted with the outcome of its use) combinations",
    cases: [60000, 800000],
    case: c10,
    fixed: None,
};

const TOKENS: [&[u8]; 44] = [
    b"nan", b"NaN", b"-nan", b"inf", b"-inf", b"+inf", b"infinity", b"-infinity", b"Infinit", b"1e9", b"1e-9", b"9e99", b"9e999", b"-9e9999",
    b"1e-999", b"+1", b"-1", b"--1", b"+-1", b".", b"-.", b"+.", b"-", b"+", b"e", b"E5", b"1e", b"0x10", b"\t1", b"\n", b"\r\n", b"\0", b"\xff",
    b"\xc3\x28", b"\xf0\x9f\x92\xa9", b"\xe2\x82", b"\xed\xa0\x80", b"1_0", b" ", b"", b"255", b"256", b"-128", b"99999999999999999999",
];

/// columns of the fields of both lines
const COLUMNS: [(usize, usize, usize); 24] = [
    (0, 2, 7), (0, 7, 8), (0, 9, 11), (0, 11, 17), (0, 18, 20), (0, 20, 32), (0, 33, 43), (0, 44, 50), (0, 50, 52), (0, 53, 59), (0, 59, 61),
    (0, 62, 63), (0, 64, 68), (0, 44, 52), (0, 18, 32), (1, 2, 7), (1, 8, 16), (1, 17, 25), (1, 26, 33), (1, 34, 42), (1, 43, 51), (1, 52, 63),
    (1, 63, 68), (1, 52, 68),
];

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let n = b.len() as u64;
    match r.below(9) {
        0 if n > 0 => {
            let k = r.below(n) as usize;
            b[k] = r.below(256) as u8;
        }
        1 if n > 0 => {
            let k = r.below(n) as usize;
            b[k] ^= 1 << r.below(8);
        }
        2 if n > 0 => {
            let k = r.below(n) as usize;
            b.remove(k);
        }
        3 => {
            let k = r.below(n + 1) as usize;
            b.insert(k, r.below(256) as u8);
        }
        4 if n > 0 => {
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            b.swap(i, j);
        }
        5 if n > 0 => {
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            let c = r.pick(b" 0-9.+\x00\xffe\t");
            b[i.min(j)..i.max(j)].fill(c);
        }
        6 => {
            let t = r.pick(&TOKENS);
            let k = r.below(n + 1) as usize;
            for (i, c) in t.iter().enumerate() {
                if k + i < b.len() {
                    b[k + i] = *c;
                }
            }
        }
        7 if n > 0 => b.truncate(r.below(n) as usize),
        _ => {
            let k = r.below(n + 1) as usize;
            let t = r.pick(&TOKENS);
            b.splice(k..k, t.iter().copied());
        }
    }
}

fn repair(r: &mut Rng, l: &mut Vec<u8>, number: u8) {
    if r.chance(0.8) {
        l.resize(69, b' ');
    }
    if l.len() == 69 && r.chance(0.8) {
        l[0] = number;
        for &k in if number == b'1' { &[1usize, 8, 17, 32, 43, 52, 61, 63][..] } else { &[1, 7, 16, 25, 33, 42, 51][..] } {
            l[k] = b' ';
        }
        fix_checksum(l);
    }
}

/// a pair of lines and the kind of its origin
pub fn lines(r: &mut Rng) -> (Vec<u8>, Vec<u8>, u64) {
    match r.below(10) {
        0 => {
            let any = |r: &mut Rng| {
                let n = match r.below(4) {
                    0 => 69,
                    1 => r.below(200),
                    2 => r.pick(&[0u64, 1, 2, 68, 69, 70]),
                    _ => 69,
                };
                (0..n).map(|_| r.below(256) as u8).collect::<Vec<u8>>()
            };
            (any(r), any(r), 0)
        }
        // printable noise behind a right frame
        1 => {
            let mut l1: Vec<u8> = (0..69).map(|_| r.pick(b" 0123456789.-+eEinfa")).collect();
            let mut l2: Vec<u8> = (0..69).map(|_| r.pick(b" 0123456789.-+eEinfa")).collect();
            l1[2..7].copy_from_slice(b"00001");
            l2[2..7].copy_from_slice(b"    1");
            l1[7] = b'U';
            repair(r, &mut l1, b'1');
            repair(r, &mut l2, b'2');
            (l1, l2, 1)
        }
        // fields replaced by tokens, the frame kept
        2..=6 => {
            let t = if r.chance(0.5) { tlegen::generate(r) } else { tlegen::plausible(r) };
            let mut l = [t.line1, t.line2];
            for _ in 0..1 + r.below(3) {
                let (line, a, b) = r.pick(&COLUMNS);
                let mut f = vec![r.pick(b"   0"); b - a];
                let token = match r.below(3) {
                    0 => (0..1 + r.below((b - a) as u64)).map(|_| r.pick(b"0123456789.-+eE ")).collect::<Vec<u8>>(),
                    _ => r.pick(&TOKENS).to_vec(),
                };
                let n = token.len().min(f.len());
                let at = if r.chance(0.5) { f.len() - n } else { r.below((f.len() - n) as u64 + 1) as usize };
                f[at..at + n].copy_from_slice(&token[..n]);
                l[line][a..b].copy_from_slice(&f);
                if a == 2 && r.chance(0.9) {
                    // keep the catalogue numbers equal so that the rest is reached
                    l[1 - line][a..b].copy_from_slice(&f);
                }
            }
            let [mut l1, mut l2] = l;
            fix_checksum(&mut l1);
            fix_checksum(&mut l2);
            (l1, l2, 2)
        }
        _ => {
            let t = tlegen::generate(r);
            let (mut l1, mut l2) = (t.line1, t.line2);
            for _ in 0..1 + r.below(4) {
                let l = if r.chance(0.5) { &mut l1 } else { &mut l2 };
                mutate(r, l);
            }
            if r.chance(0.6) {
                repair(r, &mut l1, b'1');
                repair(r, &mut l2, b'2');
            }
            (l1, l2, 3)
        }
    }
}

fn valid(s: &Option<String>) -> bool {
    s.as_ref().map(|s| std::str::from_utf8(s.as_bytes()).is_ok()).unwrap_or(true)
}

/// Uses a decoded value in every way; returns a class of what happened
fn exercise(m: &mut Mon, r: &mut Rng, e: &sgp4::Elements, origin: &dyn Fn() -> Value) -> u64 {
    if !valid(&e.object_name) || !valid(&e.international_designator) {
        m.violate("a decoded text is not valid UTF-8".into(), origin());
        return 0;
    }
    let t = match r.below(5) {
        _ if cfg!(miri) => r.uni(-2000.0, 2000.0),
        0 => 0.0,
        1 => r.uni(-1e5, 1e5),
        2 => 1e5,
        3 => -720.0,
        _ => r.uni(0.0, 1440.0),
    };
    let steps = |m: &mut Mon| -> Option<u64> {
        let text = m.call("Debug of elements", origin, || format!("{e:?}"))?;
        if std::str::from_utf8(text.as_bytes()).is_err() {
            m.violate("the Debug text of elements is not valid UTF-8".into(), origin());
        }
        m.call("serialising elements", origin, || serde_json::to_string(e).map(|s| s.len()))?.ok();
        m.call("epoch of elements", origin, || (e.epoch(), e.epoch_afspc_compatibility_mode()))?;
        m.call("conversion of dates", origin, || {
            let d = e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(t)).ok()?;
            e.datetime_to_minutes_since_epoch(&d).ok().map(|x| x.0)
        })?;
        let mut class = 0;
        for afspc in [false, true] {
            let c = m.call("initialising a propagator", origin, || {
                if afspc {
                    sgp4::Constants::from_elements_afspc_compatibility_mode(e).map_err(|e| e.to_string())
                } else {
                    sgp4::Constants::from_elements(e).map_err(|e| e.to_string())
                }
            })?;
            match c {
                Err(_) => class |= 1,
                Ok(c) => {
                    let got = m.call("propagating", origin, || {
                        let t = sgp4::MinutesSinceEpoch(t);
                        if afspc {
                            c.propagate_afspc_compatibility_mode(t)
                        } else {
                            c.propagate(t)
                        }
                        .map_err(|e| e.to_string())
                    })?;
                    class |= if got.is_ok() { 2 } else { 4 };
                }
            }
        }
        Some(class)
    };
    steps(m).unwrap_or(0)
}

pub enum Input {
    Pair(Vec<u8>, Vec<u8>),
    Text(String),
    Json(Vec<u8>),
}

fn c10(m: &mut Mon, r: &mut Rng) {
    let (input, kind) = make(r);
    feed(m, r, &input, kind);
}

pub fn make(r: &mut Rng) -> (Input, u64) {
    match r.below(10) {
        0..=5 => {
            let (l1, l2, kind) = lines(r);
            (Input::Pair(l1, l2), kind)
        }
        6 | 7 => (Input::Text(many(r)), 0),
        _ => object(r),
    }
}

fn feed(m: &mut Mon, r: &mut Rng, input: &Input, kind: u64) {
    match input {
        Input::Pair(l1, l2) => feed_pair(m, r, l1, l2, kind),
        Input::Text(text) => feed_text(m, r, text),
        Input::Json(bytes) => feed_json(m, r, bytes, kind),
    }
}

/// Inputs as bytes: a length and a tag before each part
pub fn corpus(seed: u64, cases: u64) -> Vec<u8> {
    let mut out = Vec::new();
    let put = |out: &mut Vec<u8>, tag: u8, b: &[u8]| {
        out.push(tag);
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    };
    for i in 0..cases {
        let mut r = Rng::new(seed ^ 0x5eed_c0de, i);
        match make(&mut r).0 {
            Input::Pair(a, b) => {
                put(&mut out, 0, &a);
                put(&mut out, 1, &b);
            }
            Input::Text(t) => put(&mut out, 2, t.as_bytes()),
            Input::Json(b) => put(&mut out, 3, &b),
        }
    }
    out
}

/// Feeds a corpus, for interpreters where making the inputs is slow
pub fn consume(m: &mut Mon, mut bytes: &[u8]) {
    let mut first = Vec::new();
    let mut i = 0;
    while bytes.len() >= 5 {
        let tag = bytes[0];
        let n = u32::from_le_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]) as usize;
        let part = bytes[5..5 + n].to_vec();
        bytes = &bytes[5 + n..];
        if tag == 0 {
            first = part;
            continue;
        }
        let input = match tag {
            1 => Input::Pair(std::mem::take(&mut first), part),
            2 => Input::Text(String::from_utf8(part).expect("text")),
            _ => Input::Json(part),
        };
        m.index = i;
        let mut r = Rng::new(7, i);
        feed(m, &mut r, &input, 0);
        if !m.violations.is_empty() {
            return;
        }
        i += 1;
    }
}

/// what the error says (taking it apart is slow under an interpreter)
fn told(e: &sgp4::TleError) -> Result<crate::props::tle::Report, String> {
    if cfg!(miri) {
        Err(e.to_string())
    } else {
        report(e)
    }
}

fn feed_pair(m: &mut Mon, r: &mut Rng, l1: &[u8], l2: &[u8], kind: u64) {
    let origin = || json!({"line1": tlegen::text(l1), "line2": tlegen::text(l2), "line1_bytes": l1, "line2_bytes": l2});
    let name = if r.chance(0.3) { Some("name ✓".to_string()) } else { None };
    let Some(got) = m.call("Elements::from_tle", origin, || sgp4::Elements::from_tle(name, l1, l2)) else { return };
    m.eval();
    match got {
        Ok(e) => {
            let class = exercise(m, r, &e, &origin);
            m.count("TLEs accepted and used");
            m.cell(&[10, kind, 1, class]);
        }
        Err(e) => {
            let Some(said) = m.call("Display and Debug of an error", origin, || (told(&e), format!("{:?}", e.clone()))) else { return };
            if let Ok(x) = said.0 {
                m.cell(&[10, kind, 2, hash_str(&x.kind), x.line as u64, x.start as u64, x.end as u64]);
            }
            m.count("TLEs refused");
        }
    }
    m.sample(origin);
}

fn many(r: &mut Rng) -> String {
    let mut bytes = Vec::new();
    for _ in 0..r.below(8) {
        match r.below(5) {
            0 => bytes.extend(tlegen::name_line(r).into_bytes()),
            1 => {
                let (l1, l2, _) = lines(r);
                bytes.extend(if r.chance(0.5) { l1 } else { l2 });
            }
            2 => {
                let (l1, l2, _) = lines(r);
                bytes.extend(l1);
                bytes.extend(b"\n");
                bytes.extend(l2);
            }
            _ => {
                let t = tlegen::generate(r);
                bytes.extend(&t.line1);
                bytes.extend(r.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\r"]));
                bytes.extend(&t.line2);
            }
        }
        bytes.extend(r.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\r", b"", b"\0\n", b"\x0b", b"\xe2\x80\xa8", b" \n"]));
    }
    for _ in 0..r.below(4) {
        mutate(r, &mut bytes);
    }
    String::from_utf8_lossy(&bytes).to_string()
}

fn feed_text(m: &mut Mon, r: &mut Rng, text: &str) {
    let origin = || json!({"text": text});
    let three = r.chance(0.5);
    let Some(got) = m.call(if three { "parse_3les" } else { "parse_2les" }, origin, || {
        if three {
            sgp4::parse_3les(text)
        } else {
            sgp4::parse_2les(text)
        }
    }) else {
        return;
    };
    m.eval();
    match got {
        Ok(v) => {
            let mut class = 0;
            for e in &v {
                class |= exercise(m, r, e, &origin);
            }
            m.count("lists accepted");
            m.cell(&[11, three as u64, v.len() as u64, class]);
        }
        Err(e) => {
            let Some(said) = m.call("Display and Debug of an error", origin, || (told(&e), format!("{e:?}"))) else { return };
            if let Ok(x) = said.0 {
                m.cell(&[12, three as u64, hash_str(&x.kind), x.line as u64, x.start as u64]);
            }
            m.count("lists refused");
        }
    }
}

const JSON: [&str; 34] = [
    "null", "true", "0", "-0", "-1", "1e308", "1e-320", "1.7976931348623157e308", "18446744073709551615", "18446744073709551616",
    "-9223372036854775808", "255", "256", "\"\"", "\"nan\"", "\"inf\"", "\"-inf\"", "\"1e999\"", "\"-1\"", "\"\\u0000\"", "\"\\ud800\"",
    "\"\\uD83D\\uDE00\"", "[]", "{}", "[[[[[[[[]]]]]]]]", "\"2020-01-01T23:59:60\"", "\"+262142-12-31T23:59:59.999999999\"",
    "\"-262143-01-01T00:00:00\"", "\"0000-01-01T00:00:00\"", "\"-0001-12-31T23:59:59.999\"", "\"2016-12-31T23:59:60.999999999\"",
    "\"99999-01-01T00:00:00\"", "\"1900-01-01T00:00:00\"", "1e-5",
];

fn object(r: &mut Rng) -> (Input, u64) {
    let mut o = omm::generate(r);
    for _ in 0..r.below(4) {
        let k = r.below(o.pairs.len() as u64) as usize;
        o.pairs[k].1 = r.pick(&JSON).to_string();
    }
    if r.chance(0.2) {
        let k = r.below(o.pairs.len() as u64) as usize;
        let p = o.pairs[k].clone();
        o.pairs.push(p);
    }
    omm::extra(r, &mut o.pairs);
    let mut bytes = omm::render(r, &o.pairs, 2).into_bytes();
    let kind = r.below(3);
    if kind == 1 {
        for _ in 0..1 + r.below(4) {
            mutate(r, &mut bytes);
        }
    } else if kind == 2 && r.chance(0.2) {
        let depth = r.below(400) as usize;
        let mut nested = b"[".repeat(depth);
        nested.extend(&bytes);
        nested.extend(b"]".repeat(depth));
        bytes = nested;
    }
    (Input::Json(bytes), kind)
}

fn feed_json(m: &mut Mon, r: &mut Rng, bytes: &[u8], kind: u64) {
    let origin = || json!({"json": tlegen::text(bytes), "bytes": bytes});
    let way = r.below(3);
    let Some(got) = m.call("decoding an OMM", origin, || match way {
        0 => serde_json::from_slice::<sgp4::Elements>(bytes).map(|e| vec![e]).map_err(|e| e.to_string()),
        1 => {
            let mut list = b"[".to_vec();
            list.extend(bytes);
            list.push(b']');
            serde_json::from_slice::<Vec<sgp4::Elements>>(&list).map_err(|e| e.to_string())
        }
        _ => serde_json::from_slice::<Value>(bytes)
            .and_then(serde_json::from_value::<sgp4::Elements>)
            .map(|e| vec![e])
            .map_err(|e| e.to_string()),
    }) else {
        return;
    };
    m.eval();
    match got {
        Ok(v) => {
            let mut class = 0;
            for e in &v {
                class |= exercise(m, r, e, &origin);
            }
            m.count("OMMs accepted and used");
            m.cell(&[13, kind, way, class]);
        }
        Err(e) => {
            m.count("OMMs refused");
            // the message without its place
            let text = e.split(" at line").next().unwrap_or("").to_string();
            m.cell(&[14, kind, way, hash_str(&text)]);
        }
    }
}
