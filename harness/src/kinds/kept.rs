//! How much of their source tokenizers and tapes keep (C26)
use concordance::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use crate::ast::idx_list;
use crate::kinds::pat::{token_matcher, toks};
use crate::sym::Sym;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn live() -> i64 { LIVE.with(|l| l.get()) }

/// Symbols that count how many of them there are
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Live(u32);
impl Live { fn new(n: u32) -> Live { LIVE.with(|l| l.set(l.get() + 1)); Live(n) } }
impl Clone for Live { fn clone(&self) -> Live { Live::new(self.0) } }
impl Drop for Live { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
impl Countable for Live {
    fn next(&self) -> Live { Live::new(self.0 + 1) }
    fn prev(&self) -> Live { Live::new(self.0 - 1) }
}
impl serde::Serialize for Live { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<'de> serde::Deserialize<'de> for Live { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Live, D::Error> { u32::deserialize(d).map(Live::new) } }
impl Sym for Live {}

/// A source that gives the symbols of w again and again, and notes how many there are when it is asked
#[derive(Clone)]
struct Source { w: Rc<Vec<u32>>, at: usize, n: usize, seen: Rc<RefCell<Vec<i64>>> }
impl SymbolReader<Live> for Source {
    fn next_symbol(&mut self) -> Option<Live> {
        self.seen.borrow_mut().push(live());
        if self.at == self.n { return None; }
        self.at += 1;
        Some(Live::new(self.w[(self.at - 1) % self.w.len()]))
    }
}
impl<'a> SymbolSource<'a, Live> for Source {
    type SymbolReader = Source;
    fn read_symbols(self) -> Source { self }
}

/// How many there are after each call, above how many there were before
fn drive<R: SymbolReader<Live>>(mut t: Tokenizer<Live, u32, R>, ops: &Value) -> Vec<i64> {
    let before  = live();
    let mut ev  = vec![];
    for op in ops.as_array().unwrap() {
        let mut most = 0;
        let (how, n) = (op[0].as_str().unwrap(), op[1].as_u64().unwrap());
        for i in 0..n {
            match how {
                "it"   => { t.next(); }
                "tok"  => { if t.next_token().is_none() { t.skip_input(); } }
                "sym"  => { if t.next_symbol().is_none() { t.skip_input(); } }
                "skip" => { if i % 10 == 9 { t.next_token(); } else { t.skip_input(); } }
                other  => panic!("unknown call {}", other)
            }
            most = most.max(live() - before);
        }
        ev.push(most);
    }
    ev
}

fn tokenize(case: &Value) -> Vec<i64> {
    let ts   = toks(case);
    let k    = case["k"].as_u64().unwrap() as u32;
    let e: Vec<Live> = (0..k).map(Live::new).collect();
    let w    = Rc::new(idx_list(&case["w"]).into_iter().map(|i| i as u32).collect::<Vec<_>>());
    let seen = Rc::new(RefCell::new(vec![]));
    let src  = Source { w, at: 0, n: case["n"].as_u64().unwrap() as usize, seen };
    let tm   = token_matcher::<Live, u32>(&ts, &e);
    let dfa: SymbolRangeDfa<Live, u32> = (&tm).prepare_to_match();
    let ops  = &case["ops"];
    match case["top"].as_str().unwrap() {
        "match" => {
            let mut ev = vec![];
            for op in ops.as_array().unwrap() {
                src.seen.borrow_mut().clear();
                match op.as_str().unwrap() {
                    "mp" => { match_pattern(dfa.start(), &mut src.clone()); }
                    "pr" => { matches_prepared(src.clone(), &dfa); }
                    "mt" => { matches(src.clone(), &tm); }
                    "nd" => { matches(src.clone(), tm.to_ndfa()); }
                    other => panic!("unknown way to match {}", other)
                }
                let seen = src.seen.borrow();
                ev.push(seen.iter().map(|n| n - seen[0]).max().unwrap_or(0));
            }
            ev
        }
        "stack" => {
            // The tokens of the tokenizer are the symbols of another
            let outputs: Vec<u32> = (0..10).collect();
            let upper = token_matcher::<u32, u32>(&[(crate::ast::P::Inf(1, Box::new(crate::ast::P::Rng(0, 2))), 0), (crate::ast::P::Rng(0, 9), 1)], &outputs);
            let mut t = Tokenizer::new(Tokenizer::new_prepared(src, &dfa), &upper);
            let before = live();
            let mut ev = vec![];
            for _ in 0..ops[0][1].as_u64().unwrap() { t.next_token(); ev.push(live() - before); }
            vec![ev.into_iter().max().unwrap_or(0)]
        }
        _ => match case["reader"].as_str().unwrap() {
            "plain" => drive(Tokenizer::new_prepared(src, &dfa), ops),
            "own"   => drive(Tokenizer::new(src, &tm), ops),
            "nd"    => drive(Tokenizer::new(src, tm.to_ndfa()), ops),
            "map"   => drive(Tokenizer::new_prepared(src.map_symbols(|x: Live| x), &dfa), ops),
            _       => { let b: Box<dyn SymbolReader<Live>> = Box::new(src); drive(Tokenizer::new(b, dfa), ops) }
        }
    }
}

fn tape(case: &Value) -> Vec<i64> {
    let n     = case["n"].as_u64().unwrap() as usize;
    let mut t = Tape::new(Source { w: Rc::new(vec![1, 2, 3]), at: 0, n, seen: Rc::new(RefCell::new(vec![])) });
    let mut ev = vec![];
    let before = live();
    for op in case["ops"].as_array().unwrap() {
        match op[0].as_str().unwrap() {
            "n" => { for _ in 0..op[1].as_u64().unwrap() { t.next_symbol(); } }
            "b" => t.rewind(op[1].as_u64().unwrap() as usize),
            "c" => t.cut(),
            other => panic!("unknown call {}", other)
        }
        ev.push(live() - before);
    }
    ev
}

pub fn kept(case: &Value) -> Value {
    let before = live();
    let ev = if case["top"] == "tape" { tape(case) } else { tokenize(case) };
    json!({"ev": ev, "left": live() - before})
}
