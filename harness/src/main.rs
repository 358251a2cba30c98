mod core;
mod gen;
mod heap;
mod num;
mod omm;
mod oracle;
mod props;
mod refm;
mod rng;
mod sidereal;
mod tlegen;

use std::process::exit;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

fn find(id: &str) -> &'static core::Property {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(64);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let num = |k: &str, d: f64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    core::install_panic_hook();
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let prop = find(&args[1]);
            let opt = core::Options {
                thorough: get("--tier").as_deref() == Some("thorough"),
                seed: get("--seed").and_then(|v| v.parse().ok()).unwrap_or(1),
                out: get("--out").expect("--out"),
                jobs: num("--jobs", 8.0) as usize,
                scale: num("--scale", 1.0),
                wall: num("--wall", 300.0),
                cpu_limit: num("--cpu-limit", 60.0),
                shards: num("--shards", 64.0) as u64,
            };
            core::run(prop, opt);
        }
        Some("corpus") => {
            let seed = get("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
            let bytes = props::hostile::corpus(seed, num("--cases", 10.0) as u64);
            std::fs::write(get("--out").expect("--out"), bytes).expect("corpus");
        }
        Some("mini") => {
            let prop = find(&args[1]);
            let seed = get("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
            let corpus = get("--corpus").map(|p| std::fs::read(p).expect("corpus"));
            core::mini(prop, seed, num("--cases", 10.0) as u64, corpus.as_deref());
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
            let prop = find(v["property"].as_str().expect("property"));
            let found = core::replay(
                prop,
                v["tier"] == "thorough",
                v["seed"].as_u64().unwrap_or(1),
                v["shard"].as_u64().unwrap_or(0),
                v["index"].as_u64().unwrap_or(0),
            );
            for f in &found {
                println!("{}", serde_json::to_string_pretty(f).unwrap());
            }
            println!("{} violation(s)", found.len());
            exit(if found.is_empty() { 0 } else { 1 });
        }
        _ => {
            eprintln!("usage: vh run <property> --out FILE [--tier T] [--seed N] | vh replay FILE");
            exit(64);
        }
    }
}
