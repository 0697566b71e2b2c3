//! Tokenizers (C04, C05, C17)
use concordance::*;
use serde_json::{json, Value};
use crate::ast::{idx_list, P};
use crate::kinds::pat::{pattern_dfa, token_dfa, token_matcher, toks};
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type, with_types};

/// A source that carries on with symbols after its end, for those who ask
struct Carry<S> { w: Vec<S>, at: usize }
impl<S: Clone> SymbolReader<S> for Carry<S> {
    fn next_symbol(&mut self) -> Option<S> {
        let at = self.at;
        self.at += 1;
        if at == self.w.len() || self.w.is_empty() { None } else { Some(self.w[at % self.w.len()].clone()) }
    }
}

/// Calls `f` with a reader of the word, of the kind that is asked for
pub fn with_reader<'x, S: Sym, R, F: FnOnce(Box<dyn SymbolReader<S> + 'x>) -> R>(how: &str, w: &'x Vec<S>, f: F) -> R {
    match how {
        "vec"    => f(Box::new(VecReader::from_vec(w.clone()))),
        "slice"  => f(Box::new(w.read_symbols())),
        // A string, where there is one
        "str"    => f(S::str_reader(w).unwrap_or_else(|| Box::new(w.read_symbols()))),
        "map"    => f(Box::new(VecReader::from_vec((0..w.len()).collect::<Vec<usize>>()).map_symbols(move |i: usize| w[i].clone()))),
        "filter" => f(Box::new(w.iter().flat_map(|s| vec![None, Some(s.clone())]).filter_map(|s| s))),
        "tape"   => { let mut t = Tape::new(VecReader::from_vec([&w[..w.len().min(2)], &w[..]].concat())); for _ in 0..w.len().min(2) { t.next_symbol(); } t.cut(); f(Box::new(t)) }
        "carry"  => f(Box::new(Carry { w: w.clone(), at: 0 })),
        "left"   => { let src = Box::leak(Box::new(VecReader::from_vec(w.clone()))); let (a, b) = src.split(); let r = f(Box::new(a)); drop(b); r }
        "right"  => { let src = Box::leak(Box::new(VecReader::from_vec(w.clone()))); let (mut a, b) = src.split(); a.next_symbol(); let r = f(Box::new(b)); drop(a); r }
        other    => panic!("unknown reader {}", other)
    }
}

/// Makes the calls
pub fn drive<S: Sym, O: Clone + Ord + 'static, R: SymbolReader<S>, F: Fn(&O) -> i64>(mut t: Tokenizer<S, O, R>, case: &Value, e: &[S], rank: &F) -> Value {
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let tok = |t: Option<(std::ops::Range<usize>, O)>| t.map(|(r, o)| vec![r.start as i64, r.end as i64, rank(&o)]).unwrap_or(vec![]);
        // These take the tokenizer, and are the last
        let all = |v: Vec<(std::ops::Range<usize>, O)>| json!(v.into_iter().map(|t| tok(Some(t))).collect::<Vec<_>>());
        let gone = match op.as_str().unwrap() {
            "rest"  => 1, "count" => 2, "last" => 3, "fold" => 4, _ => 0
        };
        if gone > 0 {
            let r = match gone {
                1 => all(t.collect()),
                2 => json!([t.count()]),
                3 => json!(tok(t.last())),
                _ => all(t.fold(vec![], |mut v, x| { v.push(x); v }))
            };
            ev.push(json!({"r": r, "pos": -1, "end": false}));
            break;
        }
        let r = match op.as_str().unwrap() {
            "hint" => { let (a, b) = t.size_hint(); vec![a.min(1 << 30) as i64, b.map(|b| b.min(1 << 30) as i64).unwrap_or(-1)] }
            "nth0" => tok(t.nth(0)),
            "nth1" => tok(t.nth(1)),
            "nth2" => tok(t.nth(2)),
            "nth3" => tok(t.nth(3)),
            "tok"  => tok(t.next_token()),
            "sym"  => t.next_symbol().map(|o| vec![rank(&o)]).unwrap_or(vec![]),
            "skip" => t.skip_input().map(|s| vec![e.iter().position(|x| *x == s).map(|i| i as i64).unwrap_or(-2)]).unwrap_or(vec![]),
            "it"   => tok(t.next()),
            other  => panic!("unknown call {}", other)
        };
        ev.push(json!({"r": r, "pos": t.get_source_position(), "end": t.at_end_of_reader()}));
    }
    json!({"ev": ev})
}

fn tokens<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let ts   = toks(case);
    let w: Vec<S> = idx_list(&case["w"]).into_iter().map(|i| e[i].clone()).collect();
    let tm   = token_matcher::<S, O>(&ts, e);
    let rank = |o: &O| o.rank();
    let how  = case["how"].as_str().unwrap();
    let rd   = case["reader"].as_str().unwrap();
    match (how, rd) {
        // Some without a box
        ("ref", "vec")    => drive(Tokenizer::new(VecReader::from_vec(w.clone()), &tm), case, e, &rank),
        ("ref", "slice")  => drive(Tokenizer::new(w.read_symbols(), &tm), case, e, &rank),
        ("prep", "slice") => { let d: SymbolRangeDfa<S, O> = token_dfa("tm", &ts, e); let r = drive(Tokenizer::new_prepared(w.read_symbols(), &d), case, e, &rank); r }
        ("ref", _)  => with_reader(rd, &w, |r| drive(Tokenizer::new(r, &tm), case, e, &rank)),
        ("box", _)  => with_reader(rd, &w, |r| drive(Tokenizer::new(r, tm.to_ndfa()), case, e, &rank)),
        ("dfa", _)  => with_reader(rd, &w, |r| drive(Tokenizer::new(r, token_dfa::<S, O>("tmbox", &ts, e)), case, e, &rank)),
        ("prep", _) => { let d: SymbolRangeDfa<S, O> = token_dfa("tm", &ts, e); with_reader(rd, &w, |r| drive(Tokenizer::new_prepared(r, &d), case, e, &rank)) }
        (other, _)  => panic!("unknown how {}", other)
    }
}

/// A single pattern, whose tokens are all ()
fn single<S: Sym>(case: &Value, e: &[S]) -> Value {
    let (p, o) = toks(case)[0].clone();
    let w: Vec<S> = idx_list(&case["w"]).into_iter().map(|i| e[i].clone()).collect();
    let rd  = case["reader"].as_str().unwrap();
    let lit = match p { P::Lit(ref s) => Some(s.iter().map(|i| e[*i].clone()).collect::<Vec<_>>()), _ => None };
    with_reader(rd, &w, |r| match case["how"].as_str().unwrap() {
        "pat" => drive(Tokenizer::new(r, p.to_real(e)), case, e, &|_: &()| o),
        how   => {
            let d = pattern_dfa(how, p.to_real(e), lit.as_ref()).unwrap_or_else(|| p.to_real(e).prepare_to_match());
            let res = drive(Tokenizer::new_prepared(r, &d), case, e, &|_: &()| o);
            res
        }
    })
}

pub fn tok(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    match case["how"].as_str().unwrap() {
        "ref" | "box" | "dfa" | "prep" => with_types!(case, e, T, tokens::<_, T>(case, &e)),
        _ => with_embedding!(case["emb"].as_str().unwrap(), k, e, single(case, &e))
    }
}
