//! Conformance harness: makes the inputs of the checks and executes them against the real library, recording what it did.
//!
//!   harness gen  PROPERTY TIER SEED OUT     writes one case (JSON) per line
//!   harness exec IN OUT [--serial MARK]     executes cases, writing each with an "obs" field holding what was observed
//!
//! Nothing here decides whether what was observed is right: the TLA+ trace specifications do that.
#![allow(deprecated)]
mod rng;
mod sym;
mod ast;
mod kinds;
mod gen;

use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use serde_json::{json, Value};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "gen"  => {
            let cases = gen::generate(&args[2], &args[3], args[4].parse().unwrap());
            let mut out = BufWriter::new(File::create(&args[5]).unwrap());
            for c in cases { writeln!(out, "{}", c).unwrap(); }
        }
        "exec" => exec(&args[2], &args[3], args.get(5).cloned()),
        other  => { eprintln!("unknown command {}", other); std::process::exit(2); }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

fn run_case(case: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| kinds::execute(case))) {
        Ok(v)  => v,
        Err(e) => json!({ "panic": panic_text(e) })
    }
}

/// Seconds that one case may take
const LIMIT: u64 = 40;

fn exec(input: &str, output: &str, mark: Option<String>) {
    let cases: Vec<Value> = BufReader::new(File::open(input).unwrap()).lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let cases   = Arc::new(cases);
    let next    = Arc::new(AtomicUsize::new(0));
    let results = Arc::new(Mutex::new(vec![Value::Null; cases.len()]));
    let threads = if mark.is_some() { 1 } else { 8 };
    let running: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; threads]));
    let done    = Arc::new(AtomicUsize::new(0));

    for t in 0..threads {
        let (cases, next, results, running, done, mark) = (cases.clone(), next.clone(), results.clone(), running.clone(), done.clone(), mark.clone());
        std::thread::Builder::new().stack_size(128 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= cases.len() { break; }
                // When run serially, note which case is being executed in case it takes the whole process down
                if let Some(ref m) = mark { std::fs::write(m, format!("{}", i)).unwrap(); }
                running.lock().unwrap()[t] = Some((i, Instant::now()));
                let obs = run_case(&cases[i]);
                running.lock().unwrap()[t] = None;
                results.lock().unwrap()[i] = obs;
            }
            done.fetch_add(1, Ordering::SeqCst);
        }).unwrap();
    }

    let mut waited = 0;
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(if waited < 50 { 2 } else { 20 }));
        waited += 1;
        let hung = running.lock().unwrap().iter().filter_map(|r| *r).find(|r| r.1.elapsed() > Duration::from_secs(LIMIT)).map(|r| r.0);
        if let Some(i) = hung {
            println!("HANG {}", i);
            std::process::exit(70);
        }
    }

    let results = results.lock().unwrap();
    let mut out = BufWriter::new(File::create(output).unwrap());
    for (c, o) in cases.iter().zip(results.iter()) {
        let mut rec = c.clone();
        rec["obs"] = o.clone();
        writeln!(out, "{}", rec).unwrap();
    }
    out.flush().unwrap();
    std::process::exit(0);
}
