//! Tagged streams (C18, C19)
use concordance::*;
use concordance::TagSymbol::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::ast::idx_list;
use crate::kinds::pat::{token_dfa, toks};
use crate::kinds::tok::with_reader;
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type, with_types};

fn element<S: Sym, O: Tok>(x: &TagSymbol<S, O>, e: &[S]) -> Value {
    match x {
        Untagged(s)  => json!([e.iter().position(|x| x == s).map(|i| i as i64).unwrap_or(-2)]),
        Tagged(t, s) => json!([t.rank(), tree(s, e)])
    }
}

fn tree<S: Sym, O: Tok>(s: &TaggedStream<S, O>, e: &[S]) -> Value {
    Value::Array((0..s.len()).map(|i| element(&s[i], e)).collect())
}

/// Ends that are too large to be written in a case
fn end(v: &Value) -> usize { match v.as_u64().unwrap() { 1000000 => usize::MAX, n => n as usize } }

fn history<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let dfa: SymbolRangeDfa<S, O> = token_dfa("tm", &toks(case), e);
    let k = case["k"].as_u64().unwrap() as usize;
    let mut all: Vec<TaggedStream<S, O>> = vec![];
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let u = |i: usize| op[i].as_u64().unwrap() as usize;
        let tag = |v: &Value| O::from_rank(v.as_i64().unwrap());
        let word = |v: &Value| idx_list(v).into_iter().map(|i| e[i].clone()).collect::<Vec<S>>();
        let mut more = json!({});
        let r = catch_unwind(AssertUnwindSafe(|| -> Value {
            match op[0].as_str().unwrap() {
                "new"   => { let w = word(&op[1]); all.push(with_reader(op[2].as_str().unwrap(), &w, |mut r| TaggedStream::from_reader(&mut *r))); json!([]) }
                "tag"   => { all[u(1) - 1].tag(tag(&op[2]), end(&op[3])..end(&op[4])); json!([]) }
                "over"  => element(&all[u(1) - 1].tag_range(end(&op[3])..end(&op[4]), tag(&op[2])), e),
                "with"  => {
                    let ts: Vec<_> = op[2].as_array().unwrap().iter().map(|t| (end(&t[0])..end(&t[1]), tag(&t[2]))).collect();
                    let made = all[u(1) - 1].with_tags(ts.into_iter());
                    all.push(made);
                    json!([])
                }
                "copy"  => { let c = all[u(1) - 1].clone(); all.push(c); json!([]) }
                "inner" => {
                    let c = match all[u(1) - 1][u(2)] { Tagged(_, ref s) => s.clone(), Untagged(_) => panic!("not a tag") };
                    all.push(c);
                    json!([])
                }
                "look"  => element(&all[u(1) - 1][u(2)], e),
                "read"  => {
                    let s = &all[u(1) - 1];
                    let mut r = s.read_symbols();
                    let mut found = vec![];
                    while let Some(x) = r.next_symbol() { found.push(element(&x, e)); }
                    json!([s.len(), found])
                }
                "same"  => json!(all[u(1) - 1] == all[u(2) - 1]),
                "tokenize" => {
                    let (us, ts, step) = (idx_list(&op[2]), idx_list(&op[3]), u(4));
                    let rank_of = |x: &TagSymbol<S, O>| match x { Untagged(s) => us[e.iter().position(|x| x == s).unwrap()], Tagged(t, _) => ts[t.rank() as usize] };
                    let s = &all[u(1) - 1];
                    let mut n = 0;
                    let mut calls = vec![];
                    let mut w = vec![];
                    let made = s.tokenize(&dfa, |x| {
                        let y = (rank_of(&x) + n * step) % k;
                        n += 1;
                        calls.push(element(&x, e));
                        w.push(y);
                        e[y].clone()
                    });
                    let ww: Vec<S> = w.iter().map(|i| e[*i].clone()).collect();
                    more = json!({"calls": calls, "w": w, "toks": found(&ww, &dfa)});
                    let r = tree(&made, e);
                    all.push(made);
                    r
                }
                "fromtok" => {
                    let w = word(&op[1]);
                    more = json!({"toks": found(&w, &dfa)});
                    let made = with_reader(op[2].as_str().unwrap(), &w, |mut r| TaggedStream::from_tokenized_reader(&mut *r, &dfa));
                    all.push(made);
                    json!([])
                }
                other   => panic!("unknown call {}", other)
            }
        }));
        let mut o = json!({"ref": r.is_err(), "all": all.iter().map(|s| tree(s, e)).collect::<Vec<_>>()});
        if let Ok(r) = r { o["r"] = r; }
        for (k, v) in more.as_object().unwrap() { o[k] = v.clone(); }
        ev.push(o);
    }
    json!({"ev": ev})
}

/// What iterating a tokenizer finds
fn found<S: Sym, O: Tok>(w: &Vec<S>, dfa: &SymbolRangeDfa<S, O>) -> Vec<Value> {
    // Overlong if the tokenizer doesn't end, which is for another check to find
    Tokenizer::new_prepared(VecReader::from_vec(w.clone()), dfa).take(2 * w.len() + 2).map(|(r, o)| json!([r.start, r.end, o.rank()])).collect()
}

pub fn tagged(case: &Value) -> Value {
    with_types!(case, e, T, history::<_, T>(case, &e))
}
