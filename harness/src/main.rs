mod engines;
mod fns;
mod r1cs;
mod rel;
mod session;
mod shape;
mod watch;
mod wire;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn run_plan(p: &Value) -> Vec<Value> {
    match p["kind"].as_str().unwrap_or("session") {
        "session" => match p["engine"].as_str().unwrap() {
            "q13" => session::run_session::<engines::q13::Toy13>(p),
            "q257" => session::run_session::<engines::q257::Toy257>(p),
            "q40961" => session::run_session::<engines::q40961::Toy40961>(p),
            "bls" => session::run_session::<engines::Bls12_381>(p),
            e => panic!("plan: engine {}", e),
        },
        "chunks" => fns::chunks(p),
        "comm" => fns::comm(p),
        "gens" => fns::gens(p),
        "window" => fns::window(p),
        "cwire" => fns::cwire(p),
        "shape" => shape::shape(p),
        "r1cs" => r1cs::r1cs(p),
        k => panic!("plan: kind {}", k),
    }
}

/// usage: dve-harness PLANS.ndjson EVENTS.ndjson [limit-seconds]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let plans: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    // panics of the code under test are data; panics of the harness ("plan: ...") are fatal
    let verbose = std::env::var("DVE_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if verbose {
            eprintln!("{}", i);
        }
    }));
    watch::start(a.get(3).and_then(|x| x.parse().ok()).unwrap_or(120));
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<Vec<Value>>>> = Mutex::new(vec![None; plans.len()]);
    let nthreads = std::env::var("DVE_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let bad = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= plans.len() {
                        break;
                    }
                    let t0 = std::time::Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_plan(&plans[i])));
                    if std::env::var("DVE_TIMES").is_ok() {
                        eprintln!("TIME {:.1} plan {} {} {} b={} n={}", t0.elapsed().as_secs_f64(), plans[i]["id"], plans[i]["tag"], plans[i]["engine"], plans[i]["b"], plans[i]["steps"].as_array().map(|x| x.len()).unwrap_or(0));
                    }
                    match r {
                        Ok(v) => out.lock().unwrap()[i] = Some(v),
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                            let m = m.unwrap_or_default();
                            // the code under test produced something the interpreter cannot carry on with
                            out.lock().unwrap()[i] = Some(vec![json!({"ev": "Stuck", "id": plans[i]["id"], "why": m})]);
                            if m.starts_with("plan:") {
                                bad.lock().unwrap().push(format!("plan {}: {}", plans[i]["id"], m));
                            } else {
                                eprintln!("STUCK plan {}: {}", plans[i]["id"], m);
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    for b in bad.lock().unwrap().iter() {
        eprintln!("HARNESS-PANIC {}", b);
    }
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for evs in out.lock().unwrap().iter().flatten() {
        for e in evs {
            serde_json::to_writer(&mut w, e).unwrap();
            w.write_all(b"\n").unwrap();
        }
    }
    w.flush().unwrap();
    let _ = json!(0);
    if !bad.lock().unwrap().is_empty() {
        std::process::exit(96);
    }
}
