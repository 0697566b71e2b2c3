//! Matchers that are not the library's, driven by it (C25)
use concordance::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use crate::ast::idx_list;

/// A symbol of which nothing is known but its order
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Only(i64);

/// Outputs that can't be copied
#[derive(PartialEq)]
struct Out(i64);

/// A state of a matcher given by tables. It is used up by being asked.
struct State<'a> { m: &'a Value, outs: &'a [Out], s: i64, log: &'a RefCell<Vec<Value>> }

fn answer<'a>(a: &Value, m: &'a Value, outs: &'a [Out], log: &'a RefCell<Vec<Value>>) -> MatchAction<'a, Out, State<'a>> {
    match a[0].as_str().unwrap() {
        "m" => More(State { m: m, outs: outs, s: a[1].as_i64().unwrap(), log: log }),
        "a" => Accept(a[1].as_u64().unwrap() as usize, &outs[a[2].as_u64().unwrap() as usize]),
        _   => Reject
    }
}

impl<'a> MatchingState<'a, Only, Out> for State<'a> {
    fn next(self, x: Only) -> MatchAction<'a, Out, Self> {
        self.log.borrow_mut().push(json!(["next", self.s, x.0]));
        answer(&self.m["nx"][self.s as usize][x.0 as usize], self.m, self.outs, self.log)
    }

    fn finish(self) -> MatchAction<'a, Out, Self> {
        self.log.borrow_mut().push(json!(["fin", self.s]));
        answer(&self.m["fin"][self.s as usize], self.m, self.outs, self.log)
    }
}

/// Notes what it answers. When it carries on, it starts again from the beginning after its end.
struct Noting<'a> { w: &'a [i64], at: usize, ended: bool, carry: bool, log: &'a RefCell<Vec<Value>> }
impl<'a> SymbolReader<Only> for Noting<'a> {
    fn next_symbol(&mut self) -> Option<Only> {
        let x = if self.at < self.w.len() { self.at += 1; Some(self.w[self.at - 1]) } else { self.ended = true; if self.carry { self.at = 0; } None };
        self.log.borrow_mut().push(json!(["read", x.unwrap_or(-1)]));
        x.map(Only)
    }
}

struct Via<'a, 'b: 'a>(&'a mut Noting<'b>);
impl<'a, 'b: 'a> SymbolReader<Only> for Via<'a, 'b> { fn next_symbol(&mut self) -> Option<Only> { self.0.next_symbol() } }

pub fn drive(case: &Value) -> Value {
    let m = &case["m"];
    let outs: Vec<Out> = (0..4).map(Out).collect();
    let mut res = vec![];
    for run in case["runs"].as_array().unwrap() {
        let w: Vec<i64> = idx_list(&run[0]).into_iter().map(|i| i as i64).collect();
        let log   = RefCell::new(vec![]);
        let start = answer(&m["start"], m, &outs, &log);
        let how   = run[1].as_str().unwrap();
        let (end, left): (_, Vec<i64>) = if how == "quiet" {
            if w.len() % 2 == 0 {
                let mut r = VecReader::from_vec(w.clone()).map_symbols(|x: i64| Only(x));
                let end   = match_pattern(start, &mut r);
                (end, std::iter::from_fn(|| r.next_symbol()).map(|o| o.0).collect())
            } else {
                let mut r = VecReader::from_vec(w.iter().map(|x| Only(*x)).collect());
                let end   = match_pattern(start, &mut r);
                (end, r.to_vec().into_iter().map(|o| o.0).collect())
            }
        } else {
            let mut r = Noting { w: &w, at: 0, ended: false, carry: how == "carry", log: &log };
            let end = if how == "box" {
                let mut b: Box<dyn SymbolReader<Only> + '_> = Box::new(Via(&mut r));
                match_pattern(start, &mut b)
            } else { match_pattern(start, &mut r) };
            (end, if r.ended && r.at == 0 { vec![] } else { w[r.at..].to_vec() })
        };
        let is: Vec<bool> = outs.iter().map(|o| end.is_accepted(o)).collect();
        let ret = match end { Accept(n, o) => json!(["a", n, o.0]), Reject => json!(["r"]), More(s) => json!(["m", s.s]) };
        let ev  = log.borrow().clone();
        res.push(json!({"ev": ev, "ret": ret, "left": left, "is": is}));
    }
    json!(res)
}
