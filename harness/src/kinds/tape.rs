//! Tapes (C06, C07)
use concordance::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// A source of n symbols, numbered from 0, of a type of our choosing. It carries on after its end if it's asked to.
struct Counting<F> { n: usize, pulls: Rc<Cell<usize>>, make: F }

impl<S, F: Fn(usize) -> S> SymbolReader<S> for Counting<F> {
    fn next_symbol(&mut self) -> Option<S> {
        let at = self.pulls.get();
        self.pulls.set(at + 1);
        if at == self.n { None } else { Some((self.make)(at)) }
    }
}

/// Adds to a list of runs of ascending numbers, in which ends (-1) also run together
pub fn add_run(runs: &mut Vec<(i64, i64)>, v: i64) {
    if let Some(last) = runs.last_mut() {
        if (v == -1 && last.0 == -1) || (v != -1 && last.0 != -1 && v == last.0 + last.1) { last.1 += 1; return; }
    }
    runs.push((v, 1));
}

fn run<S: Clone, F: Fn(usize) -> S, G: Fn(S) -> i64>(case: &Value, make: F, show: G) -> Value {
    let pulls    = Rc::new(Cell::new(0));
    let mut tape = Tape::new(Counting { n: case["n"].as_u64().unwrap() as usize, pulls: pulls.clone(), make });
    let mut ev   = vec![];
    for op in case["ops"].as_array().unwrap() {
        let arg = op[1].as_u64().unwrap_or(0) as usize;
        let mut same = true;
        let mut res: Vec<(i64, i64)> = vec![];
        match op[0].as_str().unwrap() {
            "n" => for _ in 0..arg { add_run(&mut res, tape.next_symbol().map(|s| show(s)).unwrap_or(-1)); },
            "r" => {
                let before = (tape.get_source_position(), tape.buffer_size(), tape.at_end_of_reader(), pulls.get());
                let ok     = catch_unwind(AssertUnwindSafe(|| tape.rewind(arg))).is_ok();
                res.push((ok as i64, 1));
                if !ok { same = before == (tape.get_source_position(), tape.buffer_size(), tape.at_end_of_reader(), pulls.get()); }
            }
            "c" => tape.cut(),
            "z" => tape.resize(),
            other => panic!("unknown op {}", other)
        }
        ev.push(json!({ "res": res, "pos": tape.get_source_position(), "buf": tape.buffer_size(), "end": tape.at_end_of_reader(), "pulls": pulls.get(), "same": same }));
    }
    json!({ "ev": ev })
}

pub fn tape(case: &Value) -> Value {
    match case["type"].as_str().unwrap() {
        "usize"  => run(case, |i| i, |i| i as i64),
        "string" => run(case, |i| format!("{}", i), |s: String| s.parse().unwrap()),
        "char"   => run(case, |i| std::char::from_u32(if i < 0xd7e0 { 0x20 + i as u32 } else { 0x820 + i as u32 }).unwrap(), |c| if (c as u32) < 0xd800 { c as i64 - 0x20 } else { c as i64 - 0x820 }),
        "unord"  => run(case, |i| (i as f64, Rc::new(i)), |p: (f64, Rc<usize>)| *p.1 as i64),
        other    => panic!("unknown type {}", other)
    }
}
