//! How much of its source a match or a tokenizer reads (C24)
use concordance::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use crate::ast::idx_list;
use crate::kinds::pat::{token_dfa, token_matcher, toks};
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type, with_types};

/// A source that counts what is asked of it, and carries on after its end
struct Counting<S> { w: Vec<S>, at: usize, asked: i64, given: i64 }
impl<S: Clone> Counting<S> {
    fn next(&mut self) -> Option<S> {
        self.asked += 1;
        let at = self.at;
        self.at += 1;
        if at == self.w.len() || self.w.is_empty() { return None; }
        self.given += 1;
        Some(self.w[at % self.w.len()].clone())
    }
}

/// Something that reads it, and can be turned into a reader
#[derive(Clone)]
struct Handle<S>(Rc<RefCell<Counting<S>>>);
impl<S: Clone> SymbolReader<S> for Handle<S> { fn next_symbol(&mut self) -> Option<S> { self.0.borrow_mut().next() } }
impl<'a, S: Clone + 'a> SymbolSource<'a, S> for Handle<S> {
    type SymbolReader = Handle<S>;
    fn read_symbols(self) -> Handle<S> { self }
}

fn tokenize<S: Sym, O: Tok, R: SymbolReader<S>>(mut t: Tokenizer<S, O, R>, src: &Handle<S>, case: &Value, e: &[S]) -> Value {
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let tok = |t: Option<(std::ops::Range<usize>, O)>| t.map(|(r, o)| vec![r.start as i64, r.end as i64, o.rank()]).unwrap_or(vec![]);
        let r = match op.as_str().unwrap() {
            "tok"  => tok(t.next_token()),
            "sym"  => t.next_symbol().map(|o| vec![o.rank()]).unwrap_or(vec![]),
            "skip" => t.skip_input().map(|s| vec![e.iter().position(|x| *x == s).map(|i| i as i64).unwrap_or(-2)]).unwrap_or(vec![]),
            "it"   => tok(t.next()),
            other  => panic!("unknown call {}", other)
        };
        t.at_end_of_reader();
        let pos = t.get_source_position();
        let s = (src.0).borrow();
        ev.push(json!({"r": r, "pos": pos, "given": s.given, "asked": s.asked}));
    }
    json!({"ev": ev})
}

fn run<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let ts  = toks(case);
    let w: Vec<S> = idx_list(&case["w"]).into_iter().map(|i| e[i].clone()).collect();
    let src = Handle(Rc::new(RefCell::new(Counting { w, at: 0, asked: 0, given: 0 })));
    let tm  = token_matcher::<S, O>(&ts, e);
    if case["top"] == "match" {
        let mut ev = vec![];
        let dfa: SymbolRangeDfa<S, O> = token_dfa("tm", &ts, e);
        for op in case["ops"].as_array().unwrap() {
            let n = match op.as_str().unwrap() {
                "mp" => match match_pattern(dfa.start(), &mut src.clone()) { MatchAction::Accept(n, _) => n as i64, MatchAction::Reject => -1, _ => panic!("undecided") },
                "pr" => matches_prepared(src.clone(), &dfa).map(|n| n as i64).unwrap_or(-1),
                "mt" => matches(src.clone(), &tm).map(|n| n as i64).unwrap_or(-1),
                "nd" => matches(src.clone(), tm.to_ndfa()).map(|n| n as i64).unwrap_or(-1),
                "bx" => { let mut b: Box<dyn SymbolReader<S>> = Box::new(src.clone()); match match_pattern(dfa.start(), &mut b) { MatchAction::Accept(n, _) => n as i64, MatchAction::Reject => -1, _ => panic!("undecided") } }
                "sy" => src.clone().next_symbol().map(|_| 1).unwrap_or(0),
                other => panic!("unknown way to match {}", other)
            };
            let s = (src.0).borrow();
            ev.push(json!({"r": [n], "pos": 0, "given": s.given, "asked": s.asked}));
            if s.asked > s.given { break; }
        }
        return json!({"ev": ev});
    }
    let dfa: SymbolRangeDfa<S, O> = token_dfa("tm", &ts, e);
    let rd  = src.clone();
    match (case["how"].as_str().unwrap(), case["reader"].as_str().unwrap()) {
        ("new", "plain")  => tokenize(Tokenizer::new(rd, &tm), &src, case, e),
        ("new", "map")    => tokenize(Tokenizer::new(rd.map_symbols(|x: S| x), tm.to_ndfa()), &src, case, e),
        ("new", "tape")   => tokenize(Tokenizer::new(Tape::new(rd), dfa), &src, case, e),
        ("new", _)        => { let b: Box<dyn SymbolReader<S>> = Box::new(rd); tokenize(Tokenizer::new(b, &tm), &src, case, e) }
        (_, "plain")      => { let r = tokenize(Tokenizer::new_prepared(rd, &dfa), &src, case, e); r }
        (_, "map")        => { let r = tokenize(Tokenizer::new_prepared(rd.map_symbols(|x: S| x), &dfa), &src, case, e); r }
        (_, "tape")       => { let r = tokenize(Tokenizer::new_prepared(Tape::new(rd), &dfa), &src, case, e); r }
        _                 => { let b: Box<dyn SymbolReader<S>> = Box::new(rd); let r = tokenize(Tokenizer::new_prepared(b, &dfa), &src, case, e); r }
    }
}

pub fn lazy(case: &Value) -> Value {
    with_types!(case, e, T, run::<_, T>(case, &e))
}
