//! Tokenizers that read tokenizers (C23)
use concordance::*;
use serde_json::{json, Value};
use crate::ast::{idx_list, P};
use crate::kinds::pat::{token_dfa, token_matcher};
use crate::sym::{Sym, Tok};
use crate::with_embedding;

type Level<S> = Box<dyn SymbolReader<S>>;

fn tokens(v: &Value) -> Vec<(P, i64)> { v.as_array().unwrap().iter().map(|t| (P::parse(&t["p"]), t["o"].as_i64().unwrap())).collect() }

/// Tokens of one level are symbols of the next
impl Tok for u8 {
    fn from_rank(r: i64) -> u8 { r as u8 }
    fn rank(&self) -> i64 { *self as i64 }
}

/// What is put between two levels
fn between<S: Clone + 'static>(r: Level<S>, mid: &str) -> Level<S> {
    match mid {
        "none" => r,
        "box"  => Box::new(r),
        "tape" => Box::new(Tape::new(r)),
        "back" => { let mut t = Tape::new(r); let mut n = 0; while n < 3 && t.next_symbol().is_some() { n += 1; } t.rewind(n); Box::new(t) }
        "map"  => Box::new(r.map_symbols(|x: S| x)),
        "left" => { let (a, b) = Box::leak(Box::new(r)).split(); std::mem::forget(b); Box::new(a) }
        "rest" => { let (a, mut b) = Box::leak(Box::new(r)).split(); b.next_symbol(); drop(b); Box::new(a) }
        "vec"  => { let mut r = r; Box::new(VecReader::from_vec(r.to_vec())) }
        "list" => { let mut r = r; let mut v = vec![]; while let Some(x) = r.next_symbol() { v.push(x); } Box::new(VecReader::from_vec(v)) }
        other  => panic!("unknown layer {}", other)
    }
}

/// A level over another
fn level<S: Sym, O: Tok>(below: Level<S>, toks: &[(P, i64)], via: &str, e: &[S]) -> Level<O> {
    match via {
        "ref"  => Box::new(Tokenizer::new(below, &token_matcher::<S, O>(toks, e))),
        "box"  => Box::new(Tokenizer::new(below, token_matcher::<S, O>(toks, e).to_ndfa())),
        "prep" => { let d: &'static SymbolRangeDfa<S, O> = Box::leak(Box::new(token_dfa("tm", toks, e))); Box::new(Tokenizer::new_prepared(below, d)) }
        "dfa"  => Box::new(Tokenizer::new(below, token_dfa::<S, O>("tmbox", toks, e))),
        other  => panic!("unknown via {}", other)
    }
}

enum Head { Tok(Tokenizer<'static, u8, u32, Level<u8>>), Plain(Level<u8>) }

fn build<S: Sym>(case: &Value, e: &[S]) -> Value {
    let w: Vec<S> = idx_list(&case["w"]).into_iter().map(|i| e[i].clone()).collect();
    let bytes: Vec<u8> = (0..=255).collect();
    let levels = case["levels"].as_array().unwrap();
    let mut at: Level<u8> = level::<S, u8>(between(Box::new(VecReader::from_vec(w)), levels[0]["mid"].as_str().unwrap()), &tokens(&levels[0]["toks"]), levels[0]["via"].as_str().unwrap(), e);
    for l in &levels[1..] {
        at = level::<u8, u8>(between(at, l["mid"].as_str().unwrap()), &tokens(&l["toks"]), l["via"].as_str().unwrap(), &bytes);
    }
    // One head, or one for each half of the last level
    let heads = case["heads"].as_array().unwrap();
    let mut readers = vec![];
    if heads.len() == 2 {
        let (a, b) = Box::leak(Box::new(at)).split();
        readers.push(Box::new(a) as Level<u8>);
        readers.push(Box::new(b) as Level<u8>);
    } else {
        readers.push(at);
    }
    let mut tops: Vec<Head> = readers.into_iter().zip(heads).map(|(r, h)| {
        let r = between(r, h["mid"].as_str().unwrap());
        if h["top"] == "plain" { return Head::Plain(r); }
        let ts = tokens(&h["toks"]);
        Head::Tok(match h["via"].as_str().unwrap() {
            "ref"  => Tokenizer::new(r, &token_matcher::<u8, u32>(&ts, &bytes)),
            "box"  => Tokenizer::new(r, token_matcher::<u8, u32>(&ts, &bytes).to_ndfa()),
            "prep" => Tokenizer::new_prepared(r, Box::leak(Box::new(token_dfa("tm", &ts, &bytes)))),
            _      => Tokenizer::new(r, token_dfa::<u8, u32>("tmbox", &ts, &bytes))
        })
    }).collect();
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let tok = |t: Option<(std::ops::Range<usize>, u32)>| t.map(|(r, o)| vec![r.start as i64, r.end as i64, o as i64]).unwrap_or(vec![]);
        let one = |x: Option<i64>| x.map(|x| vec![x]).unwrap_or(vec![]);
        let h   = op[0].as_u64().unwrap() as usize - 1;
        ev.push(match tops[h] {
            Head::Tok(ref mut t) => {
                let r = match op[1].as_str().unwrap() {
                    "tok"  => tok(t.next_token()),
                    "sym"  => one(t.next_symbol().map(|o| o as i64)),
                    "skip" => one(t.skip_input().map(|o| o as i64)),
                    "it"   => tok(t.next()),
                    other  => panic!("unknown call {}", other)
                };
                json!({"r": r, "pos": t.get_source_position(), "end": t.at_end_of_reader()})
            }
            // Just the tokens, one by one or all
            Head::Plain(ref mut r) => json!({"r": match op[1].as_str().unwrap() { "sym" => one(r.next_symbol().map(|o| o as i64)), "all" => r.to_vec().into_iter().map(|o| o as i64).collect(), other => panic!("unknown call {}", other) }, "pos": 0, "end": false})
        });
    }
    json!({"ev": ev})
}

pub fn levels(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    with_embedding!(case["emb"].as_str().unwrap(), k, e, build(case, &e))
}
