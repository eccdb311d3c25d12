//! Runs the code in /repo next to reference semantics, to find inputs that
//! break a property. Bounded: a fixed number of cases derived from the seed.
mod codes;
mod engine;
mod front;
mod libs;
mod model;
mod requests;
mod responses;
mod tcp;
mod util;

use std::{
    collections::BTreeMap,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};
use util::*;

type Oracle = fn(&mut Rng, u64) -> R;

/// Property, cases in the quick and the thorough tier, oracle.
const ORACLES: &[(&str, u64, u64, Oracle)] = &[
    ("C01", 60000, 240000, requests::c01),
    ("C02", 80000, 320000, requests::c02),
    ("C03", 60000, 240000, requests::c03),
    ("C04", 40000, 160000, requests::c04),
    ("C05", 50000, 200000, requests::c05),
    ("C06", 60000, 240000, responses::c06),
    ("C07", 20000, 120000, responses::c07),
    ("C08", 120000, 480000, responses::c08),
    ("C09", 600000, 2400000, codes::c09),
    ("C10", 60000, 240000, engine::c10),
    ("C11", 15000, 100000, engine::c11),
    ("C12", 80000, 320000, engine::c12),
    ("C13", 50000, 200000, engine::c13),
    ("C14", 50000, 200000, engine::c14),
    ("C15", 40000, 160000, engine::c15),
    ("C16", 50000, 200000, engine::c16),
    ("C17", 36000, 150000, engine::c17),
    ("C18", 120000, 480000, libs::c18),
    ("C19", 480000, 1920000, libs::c19),
    ("C20", 72000, 288000, libs::c20),
    ("C21", 120000, 480000, libs::c21),
    ("C22", 600000, 2400000, front::c22),
    ("C23", 64000, 256000, front::c23),
    ("C25", 1600, 16000, tcp::c25),
];

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static PANIC: Mutex<String> = Mutex::new(String::new());

fn run(prop: &str, seed: u64, idx: u64, f: Oracle) -> R {
    let mut r = Rng::new(seed, prop, idx);
    note(String::new());
    match panic::catch_unwind(AssertUnwindSafe(|| f(&mut r, idx))) {
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", PANIC.lock().unwrap())),
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out");
    let only: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let limit = Duration::from_secs(get("--limit").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 400 } else { 60 }));
    let trace = get("--trace");
    let (_, quick, deep, f) = *ORACLES.iter().find(|o| o.0 == prop).expect("an unknown property");
    let n = if thorough { deep } else { quick };

    panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
    }));

    if prop == "C25" {
        if let Err(e) = tcp::start() {
            eprintln!("starting the server: {}", e);
            std::process::exit(3);
        }
    }
    let p = prop.clone();
    let start = Instant::now();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut known: BTreeMap<String, u64> = BTreeMap::new();
            if only.is_none() {
                let mut hits: Vec<(&str, bool)> = Vec::new();
                if p == "C17" {
                    for (id, q) in engine::c17_known() {
                        note(q.show());
                        let r = panic::catch_unwind(AssertUnwindSafe(|| engine::c17_run_known(&q)));
                        hits.push((id, r.is_err()));
                    }
                }
                if p == "C23" {
                    for (id, q) in front::c23_known() {
                        let r = panic::catch_unwind(AssertUnwindSafe(|| q()));
                        hits.push((id, r.is_err()));
                    }
                }
                if p == "C25" {
                    hits.push(("C25-internal-key", tcp::unanswered()));
                }
                for (id, hit) in hits {
                    if hit {
                        *known.entry(id.to_string()).or_default() += 1;
                    }
                }
            }
            let range = match only {
                Some(i) => i..i + 1,
                None => 0..n,
            };
            let mut done = 0;
            let mut skipped = 0;
            let mut distinct = std::collections::HashSet::new();
            let mut samples = Vec::new();
            let mut fail = None;
            for i in range {
                CASE.store(i, Ordering::SeqCst);
                if let Some(t) = &trace {
                    std::fs::write(t, i.to_string()).ok();
                }
                match run(&p, seed, i, f) {
                    Ok(()) => {}
                    Err(e) if e.starts_with("SKIP") => skipped += 1,
                    Err(e) => {
                        fail = Some((i, e, get_note()));
                        break;
                    }
                }
                done += 1;
                let s = get_note();
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                if !s.is_empty() {
                    distinct.insert(h.finish());
                }
                if samples.len() < 3 && i > 300 || samples.is_empty() {
                    samples.push(s.chars().take(600).collect::<String>());
                }
                if start.elapsed() > limit {
                    break;
                }
            }
            tx.send((done, skipped, distinct.len(), samples, fail, known)).ok();
        })
        .unwrap();

    // Watch for a case that never ends.
    let mut last = (u64::MAX, Instant::now());
    let (done, skipped, distinct, samples, fail, known) = loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(x) => break x,
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                eprintln!("harness thread died: {}", PANIC.lock().unwrap_or_else(|e| e.into_inner()));
                std::process::exit(3);
            }
            Err(_) => {
                let c = CASE.load(Ordering::SeqCst);
                if c != last.0 {
                    last = (c, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(40) {
                    break (0, 0, 0, vec![], Some((c, "doesn't finish (stopped after 40 s)".to_string(), get_note())), BTreeMap::new());
                }
            }
        }
    };
    tcp::stop();
    let mut s = format!(
        "{{\"property\":{},\"seed\":{},\"done\":{},\"skipped\":{},\"distinct\":{},\"samples\":[{}],\"known\":{{{}}},\"seconds\":{:.2}",
        json(&prop), seed, done, skipped, distinct,
        samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(","),
        known.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(","),
        start.elapsed().as_secs_f64()
    );
    if let Some((i, e, input)) = &fail {
        s.push_str(&format!(",\"fail\":{{\"case\":{},\"what\":{},\"input\":{}}}", i, json(e), json(input)));
    }
    s.push('}');
    match out {
        Some(o) => std::fs::write(o, &s).unwrap(),
        None => println!("{}", s),
    }
    if let Some((i, e, input)) = &fail {
        println!("case {}: {}\n{}", i, e, input);
        std::process::exit(1);
    }
    std::process::exit(0);
}
