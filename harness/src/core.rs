//! Runner: shards, panic trap, CPU watchdog, counters, violations and their replay files.
use crate::rng::{splitmix, Rng};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let what = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{what} at {place}"));
    }));
}

/// Runs `f`, turning a panic into its message
pub fn trap<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Distinct classes counted per monitor (bounds the memory)
const MOST_CELLS: usize = 250_000;

#[derive(Default)]
pub struct Mon {
    pub evaluations: u64,
    pub cells: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub thorough: bool,
    pub shard: u64,
    pub index: u64,
    want_sample: bool,
    sampled: u32,
    /// rare events worth keeping an example of
    pub examples: BTreeMap<String, Value>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h)
}

impl Mon {
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn cell(&mut self, key: &[u64]) {
        let mut h = 0x1234567u64;
        for k in key {
            let mut x = h ^ k;
            h = splitmix(&mut x);
        }
        if self.cells.len() < MOST_CELLS {
            self.cells.insert(h);
        }
    }
    pub fn cell_str(&mut self, key: &str) {
        if self.cells.len() < MOST_CELLS {
            self.cells.insert(hash_str(key));
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, v: f64) {
        if let Some(c) = self.maxima.get_mut(name) {
            if v > *c {
                *c = v;
            }
        } else {
            self.maxima.insert(name.to_string(), v);
        }
    }
    pub fn example(&mut self, name: &str, v: impl FnOnce() -> Value) {
        if !self.examples.contains_key(name) {
            let v = v();
            self.examples.insert(name.to_string(), v);
        }
    }
    /// offers an example of what was explored; a few are kept per shard
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.want_sample && self.sampled < 2 {
            self.sampled += 1;
            self.samples.push(v());
        }
    }
    pub fn violate(&mut self, message: String, detail: Value) {
        if self.violations.len() < 8 {
            self.violations.push(json!({
                "shard": self.shard, "index": self.index,
                "message": message, "detail": detail,
            }));
        }
    }
    /// Calls the code under test; a panic is a violation
    pub fn call<T>(
        &mut self,
        what: &str,
        detail: impl FnOnce() -> Value,
        f: impl FnOnce() -> T,
    ) -> Option<T> {
        match trap(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.violate(format!("{what} panicked: {e}"), detail());
                None
            }
        }
    }
    fn merge(&mut self, o: Mon) {
        self.evaluations += o.evaluations;
        self.cells.extend(o.cells);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
        for (k, v) in o.examples {
            self.examples.entry(k).or_insert(v);
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    /// cases per shard, quick and thorough
    pub cases: [u64; 2],
    pub case: fn(&mut Mon, &mut Rng),
    /// runs once, before the shards (systematic part); `index` counts from zero
    pub fixed: Option<fn(&mut Mon, u64) -> bool>,
}

pub struct Options {
    pub thorough: bool,
    pub seed: u64,
    pub out: String,
    pub jobs: usize,
    pub scale: f64,
    pub wall: f64,
    pub cpu_limit: f64,
    pub shards: u64,
}

fn rng_for(prop: &str, seed: u64, shard: u64, index: u64) -> Rng {
    let mut x = hash_str(prop) ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    let a = splitmix(&mut x) ^ shard.wrapping_mul(0xA24BAED4963EE407);
    Rng::new(a, index)
}

const FIXED: u64 = u64::MAX;
const MINI: u64 = 1 << 40;

struct Slot {
    tid: AtomicU64,
    shard: AtomicU64,
    index: AtomicU64,
    generation: AtomicU64,
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(ticks as f64 / 100.0)
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn write_result(path: &str, prop: &Property, opt: &Options, total: &Mon, start: Instant, complete: bool) {
    let mut counters = Map::new();
    for (k, v) in &total.counters {
        counters.insert(k.clone(), json!(v));
    }
    let mut maxima = Map::new();
    for (k, v) in &total.maxima {
        maxima.insert(k.clone(), json!(v));
    }
    // keep a spread of samples
    let step = (total.samples.len() / 12).max(1);
    let samples: Vec<Value> = total.samples.iter().step_by(step).take(12).cloned().collect();
    let v = json!({
        "property": prop.id,
        "tier": if opt.thorough { "thorough" } else { "quick" },
        "seed": opt.seed,
        "evaluations": total.evaluations,
        "distinct": total.cells.len(),
        "rule": prop.rule,
        "samples": samples,
        "counters": counters,
        "maxima": maxima,
        "examples": total.examples,
        "violations": total.violations,
        "complete": complete,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let tmp = format!("{path}.tmp");
    std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).expect("write result");
    std::fs::rename(&tmp, path).expect("rename result");
}

pub fn run(prop: &'static Property, opt: Options) {
    let start = Instant::now();
    let opt = Arc::new(opt);
    let total = Arc::new(Mutex::new(Mon::default()));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicU64::new(0));
    let truncated = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..opt.jobs)
            .map(|_| Slot {
                tid: AtomicU64::new(0),
                shard: AtomicU64::new(0),
                index: AtomicU64::new(0),
                generation: AtomicU64::new(0),
            })
            .collect(),
    );
    let crumbs = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(format!("{}.crumbs", opt.out))
        .expect("breadcrumbs");
    let crumbs = Arc::new(crumbs);
    let cases =
        ((prop.cases[opt.thorough as usize] as f64 * opt.scale).ceil() as u64).max(1);
    let shard_count = opt.shards;
    let mut handles = Vec::new();
    for j in 0..opt.jobs {
        let (opt, total, next, stop, done, slots, crumbs, truncated) = (
            opt.clone(),
            total.clone(),
            next.clone(),
            stop.clone(),
            done.clone(),
            slots.clone(),
            crumbs.clone(),
            truncated.clone(),
        );
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let slot = &slots[j];
                slot.tid.store(own_tid(), Ordering::SeqCst);
                let begin = |shard: u64, index: u64| {
                    slot.shard.store(shard, Ordering::Relaxed);
                    slot.index.store(index, Ordering::Relaxed);
                    slot.generation.fetch_add(1, Ordering::SeqCst);
                    let line = format!("{shard:>20} {index:>20}\n");
                    let _ = crumbs.write_at(line.as_bytes(), (j * 42) as u64);
                };
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    // item 0 is the systematic part
                    if k > shard_count {
                        break;
                    }
                    if stop.load(Ordering::SeqCst) || start.elapsed().as_secs_f64() > opt.wall {
                        truncated.store(true, Ordering::SeqCst);
                        break;
                    }
                    let mut m = Mon {
                        thorough: opt.thorough,
                        want_sample: true,
                        ..Default::default()
                    };
                    if k == 0 {
                        m.shard = FIXED;
                        if let Some(fixed) = prop.fixed {
                            let mut i = 0;
                            loop {
                                m.index = i;
                                begin(FIXED, i);
                                let more = guard(&mut m, |m| fixed(m, i)).unwrap_or(true);
                                if !more || m.violations.len() >= 8 || i > 10_000_000 {
                                    break;
                                }
                                i += 1;
                            }
                        }
                    } else {
                        m.shard = k - 1;
                        for i in 0..cases {
                            m.index = i;
                            m.want_sample = i < 40;
                            begin(k - 1, i);
                            let mut rng = rng_for(prop.id, opt.seed, k - 1, i);
                            guard(&mut m, |m| (prop.case)(m, &mut rng));
                            if m.violations.len() >= 8 {
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            if i % 16 == 0 && start.elapsed().as_secs_f64() > opt.wall {
                                truncated.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    total.lock().unwrap().merge(m);
                }
                slot.tid.store(0, Ordering::SeqCst);
                done.fetch_add(1, Ordering::SeqCst);
            })
            .expect("spawn");
        handles.push(h);
    }
    // watchdog
    let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); opt.jobs];
    while done.load(Ordering::SeqCst) < opt.jobs as u64 {
        std::thread::sleep(Duration::from_millis(50));
        if opt.cpu_limit <= 0.0 {
            continue;
        }
        for (j, slot) in slots.iter().enumerate() {
            let tid = slot.tid.load(Ordering::SeqCst);
            if tid == 0 {
                continue;
            }
            let generation = slot.generation.load(Ordering::SeqCst);
            let Some(cpu) = thread_cpu(tid) else { continue };
            if seen[j].0 != generation {
                seen[j] = (generation, cpu);
            } else if cpu - seen[j].1 > opt.cpu_limit
                && slot.generation.load(Ordering::SeqCst) == generation
            {
                let mut t = total.lock().unwrap();
                t.shard = slot.shard.load(Ordering::SeqCst);
                t.index = slot.index.load(Ordering::SeqCst);
                let msg = format!(
                    "a single case used more than {} s of processor time: a call does not terminate",
                    opt.cpu_limit
                );
                t.violate(msg, json!({}));
                write_result(&opt.out, prop, &opt, &t, start, false);
                std::process::exit(0);
            }
        }
    }
    for h in handles {
        h.join().expect("worker");
    }
    let t = total.lock().unwrap();
    let complete = !truncated.load(Ordering::SeqCst);
    write_result(&opt.out, prop, &opt, &t, start, complete);
}

/// A panic outside `Mon::call` and `trap` is a defect of the harness and must not look like a verdict
fn guard<T>(m: &mut Mon, f: impl FnOnce(&mut Mon) -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(|| f(m))) {
        Ok(v) => Some(v),
        Err(_) => {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            eprintln!(
                "HARNESS PANIC in shard {} case {}: {msg}",
                m.shard as i64, m.index
            );
            std::process::exit(70);
        }
    }
}

pub fn replay(prop: &'static Property, thorough: bool, seed: u64, shard: u64, index: u64) -> Vec<Value> {
    let mut m = Mon {
        thorough,
        shard,
        index,
        ..Default::default()
    };
    if shard == FIXED {
        if let Some(f) = prop.fixed {
            f(&mut m, index);
        }
    } else {
        let mut rng = rng_for(prop.id, seed, shard, index);
        (prop.case)(&mut m, &mut rng);
    }
    m.violations
}

/// Single-threaded run without files, for interpreters: prints the result
pub fn mini(prop: &'static Property, seed: u64, cases: u64, corpus: Option<&[u8]>) {
    let mut m = Mon::default();
    m.shard = MINI;
    if let Some(bytes) = corpus {
        crate::props::hostile::consume(&mut m, bytes);
    } else {
        for i in 0..cases {
            m.index = i;
            let mut rng = rng_for(prop.id, seed, MINI, i);
            (prop.case)(&mut m, &mut rng);
            if !m.violations.is_empty() {
                break;
            }
        }
    }
    println!(
        "{}",
        json!({"evaluations": m.evaluations, "distinct": m.cells.len(), "counters": m.counters, "violations": m.violations, "rule": prop.rule})
    );
}

/// a float that can be read back exactly
pub fn fx(x: f64) -> Value {
    json!(format!("{:e} (0x{:016x})", x, x.to_bits()))
}
