//! Matchers that are used over and over (C17)
use concordance::*;
use serde_json::{json, Value};
use crate::ast::idx_list;
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type, with_types};
use super::pat::{action, token_dfa, token_matcher, toks};

fn report<S: Sym, O: Tok>(dfa: &SymbolRangeDfa<S, O>, e: &[S]) -> Value {
    json!((0..dfa.count_states()).map(|d| json!({
        "out": dfa.output_symbol_for_state(d).map(|o| o.rank()).unwrap_or(-1),
        "tr": dfa.get_transitions_for_state(d).into_iter().filter_map(|(r, t)| {
            // Symbols that the case does not talk about may lie between those that it does
            let lo = e.iter().position(|s| *s >= r.lowest)? as i64;
            let hi = e.iter().rposition(|s| *s <= r.highest)? as i64;
            if lo <= hi { Some(vec![lo, hi, t as i64]) } else { None }
        }).collect::<Vec<_>>()
    })).collect::<Vec<_>>())
}

fn copy<S: Sym, O: Tok>(how: &str, d: &SymbolRangeDfa<S, O>) -> SymbolRangeDfa<S, O> {
    match how {
        "clone"   => d.clone(),
        "json"    => serde_json::from_str(&serde_json::to_string(d).unwrap()).unwrap(),
        "pretty"  => serde_json::from_slice(&serde_json::to_vec_pretty(d).unwrap()).unwrap(),
        "value"   => serde_json::from_value(serde_json::to_value(d).unwrap()).unwrap(),
        "bin"     => bincode::deserialize(&bincode::serialize(d).unwrap()).unwrap(),
        "prepare" => d.clone().prepare_to_match(),
        other     => panic!("unknown copy {}", other)
    }
}

fn leak<T>(x: T) -> &'static T { Box::leak(Box::new(x)) }

fn run<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let ts = toks(case);
    let tm = token_matcher::<S, O>(&ts, e);
    let how = case["how"].as_str().unwrap();
    let make = || -> SymbolRangeDfa<S, O> { if how == "tm" { (&tm).prepare_to_match() } else { token_dfa(how, &ts, e) } };
    let rank = |o: &O| o.rank();

    let mut dfas: Vec<&'static SymbolRangeDfa<S, O>> = vec![leak(make())];
    let mut runs: Vec<Option<SymbolRangeState<'static, S, O>>> = vec![];
    let mut tokenizers: Vec<Tokenizer<'static, S, O, Box<dyn SymbolReader<S>>>> = vec![];
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let n    = |i: usize| op[i].as_u64().unwrap() as usize;
        let word = |i: usize| idx_list(&op[i]).into_iter().map(|i| e[i].clone()).collect::<Vec<S>>();
        let tok  = |t: Option<(std::ops::Range<usize>, O)>| json!(t.map(|(r, o)| vec![r.start as i64, r.end as i64, o.rank()]).unwrap_or(vec![]));
        let advance = |runs: &mut Vec<Option<SymbolRangeState<'static, S, O>>>, at: usize, a: MatchAction<'static, O, SymbolRangeState<'static, S, O>>| match a {
            More(r) => { runs[at] = Some(r); json!([]) }
            done    => { let (n, o) = action(done, &rank); json!([n, o]) }
        };
        ev.push(match op[0].as_str().unwrap() {
            "fresh" => { dfas.push(leak(make())); json!(0) }
            "copy"  => { let d = copy(op[1].as_str().unwrap(), dfas[n(2) - 1]); dfas.push(leak(d)); json!(0) }
            "len"   => json!(matches_prepared(&word(2), dfas[n(1) - 1]).map(|l| l as i64).unwrap_or(-1)),
            "acc"   => { let w = word(2); let (n, o) = action(match_pattern(dfas[n(1) - 1].start(), &mut w.read_symbols()), &rank); json!([n, o]) }
            "start" => { runs.push(None); let at = runs.len() - 1; let a = dfas[n(1) - 1].start(); advance(&mut runs, at, a) }
            "step"  => match runs[n(1) - 1].take() { None => json!([]), Some(r) => advance(&mut runs, n(1) - 1, r.next(e[n(2)].clone())) }
            "done"  => match runs[n(1) - 1].take() { None => json!([]), Some(r) => advance(&mut runs, n(1) - 1, r.finish()) }
            "tok"   => {
                let reader: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(word(2)));
                let d = dfas[n(1) - 1];
                tokenizers.push(match op[3].as_str().unwrap() {
                    "borrow" => Tokenizer::new_prepared(reader, d),
                    "own"    => Tokenizer::new(reader, d.clone()),
                    "afresh" => Tokenizer::new(reader, &tm),
                    other    => panic!("unknown tokenizer {}", other)
                });
                json!(0)
            }
            "next"  => tok(tokenizers[n(1) - 1].next_token()),
            "item"  => tok(tokenizers[n(1) - 1].next()),
            other   => panic!("unknown op {}", other)
        });
    }
    let tables: Vec<Value> = dfas.iter().map(|d| report(d, e)).collect();
    json!({"ev": ev, "tables": tables})
}

pub fn reuse(case: &Value) -> Value {
    with_types!(case, e, T, run::<_, T>(case, &e))
}
