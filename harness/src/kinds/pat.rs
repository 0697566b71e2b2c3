//! Patterns and matchers (C01, C02, C03, C17, C21): builds the real matcher for a case and extracts its automaton, or runs it
use concordance::*;
use serde_json::{json, Value};
use crate::ast::{idx_list, P};
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type};

/// The table of an automaton over the symbols e: for each state the rank of its output (or -1), and for each symbol the state that
/// it moves to (or -1). This is the first transition that includes the symbol, as that is the one a matcher takes.
pub fn table<S: Sym, O, F: Fn(&O) -> i64>(dfa: &SymbolRangeDfa<S, O>, e: &[S], rank: F) -> Value {
    let n = dfa.count_states();
    let mut out = vec![];
    let mut tr  = vec![];
    for d in 0..n {
        out.push(dfa.output_symbol_for_state(d).map(|o| rank(o)).unwrap_or(-1));
        let ts = dfa.get_transitions_for_state(d);
        tr.push(e.iter().map(|s| ts.iter().find(|t| t.0.includes(s)).map(|t| t.1 as i64).unwrap_or(-1)).collect::<Vec<_>>());
    }
    json!({ "n": n, "out": out, "tr": tr })
}

pub fn toks(case: &Value) -> Vec<(P, i64)> {
    case["toks"].as_array().unwrap().iter().map(|t| (P::parse(&t["p"]), t["o"].as_i64().unwrap())).collect()
}

pub fn token_matcher<S: Sym, O: Tok>(ts: &[(P, i64)], e: &[S]) -> TokenMatcher<S, O> {
    token_matcher_by(ts, e, |_, _| ())
}

/// Adds the patterns one at a time, with something done with what there is so far before each
fn token_matcher_by<S: Sym, O: Tok, F: FnMut(usize, &TokenMatcher<S, O>)>(ts: &[(P, i64)], e: &[S], mut before: F) -> TokenMatcher<S, O> {
    let mut tm = TokenMatcher::new();
    for (i, (p, o)) in ts.iter().enumerate() {
        before(i, &tm);
        // All the ways of handing over a pattern
        match p {
            P::Lit(s) if i % 2 == 1 => { tm.add_pattern(s.iter().map(|i| e[*i].clone()).collect::<Vec<_>>(), O::from_rank(*o)); }
            _ if i % 3 == 2         => { tm.add_pattern(Box::new(p.to_real(e)), O::from_rank(*o)); }
            _                       => { tm.add_pattern(p.to_real(e), O::from_rank(*o)); }
        }
    }
    tm
}

/// A matcher that was already used (in any of the ways there are) whenever it was added to
fn grown<S: Sym, O: Tok>(ts: &[(P, i64)], e: &[S]) -> TokenMatcher<S, O> {
    token_matcher_by(ts, e, |i, tm| match (i + ts.len()) % 5 {
        0 => { let _d: SymbolRangeDfa<S, O> = tm.prepare_to_match(); }
        1 => { let _d: SymbolRangeDfa<S, O> = tm.to_ndfa().prepare_to_match(); }
        2 => { matches(&e.to_vec(), tm); }
        3 => { Tokenizer::new(VecReader::from_vec(e.to_vec()), tm).next_token(); }
        _ => ()
    })
}

/// Prepares the matcher for a set of tokens in the way that is asked for
pub fn token_dfa<S: Sym, O: Tok>(how: &str, ts: &[(P, i64)], e: &[S]) -> SymbolRangeDfa<S, O> {
    match how {
        "tm"      => (&token_matcher::<S, O>(ts, e)).prepare_to_match(),
        "tmbox"   => token_matcher::<S, O>(ts, e).to_ndfa().prepare_to_match(),
        "tmclone" => { let d: SymbolRangeDfa<S, O> = (&token_matcher::<S, O>(ts, e)).prepare_to_match(); let c = d.clone(); drop(d); c }
        "tmagain" => { let tm = token_matcher::<S, O>(ts, e); let _first: SymbolRangeDfa<S, O> = (&tm).prepare_to_match(); (&tm).prepare_to_match() }
        "tmgrow"  => (&grown::<S, O>(ts, e)).prepare_to_match(),
        "tmgrowbox" => grown::<S, O>(ts, e).to_ndfa().prepare_to_match(),
        "tmearly" => {
            // Prepared before other patterns were added, which are not in it
            let mut tm = grown::<S, O>(ts, e);
            let d: SymbolRangeDfa<S, O> = (&tm).prepare_to_match();
            let more = e.iter().map(|s| exactly(&[s.clone()][..]).or(Epsilon));
            for (s, (_, o)) in more.zip(ts) { tm.add_pattern(s.repeat_forever(0), O::from_rank(*o)); }
            let _later: SymbolRangeDfa<S, O> = (&tm).prepare_to_match();
            d
        }
        "tmjson"  => {
            let d: SymbolRangeDfa<S, O> = (&token_matcher::<S, O>(ts, e)).prepare_to_match();
            serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap()
        }
        "tmbin"   => {
            let d: SymbolRangeDfa<S, O> = (&token_matcher::<S, O>(ts, e)).prepare_to_match();
            bincode::deserialize(&bincode::serialize(&d).unwrap()).unwrap()
        }
        "ndfa"    => {
            // By hand: what TokenMatcher is said to do
            let mut ndfa = Ndfa::new();
            for (p, o) in ts {
                let end    = p.to_real(e).compile(&mut ndfa, 0);
                let accept = ndfa.count_states();
                ndfa.create_state(accept);
                ndfa.join_states(end, accept);
                ndfa.set_output_symbol(accept, O::from_rank(*o));
            }
            ndfa.fix_overlapping_ranges();
            DfaCompiler::build(ndfa, SymbolRangeDfaBuilder::new())
        }
        "boxndfa" => {
            assert!(ts.len() == 1);
            ts[0].0.to_real(e).to_ndfa(O::from_rank(ts[0].1)).prepare_to_match()
        }
        other => panic!("unknown how {}", other)
    }
}

/// Prepares a single pattern (matchers of a pattern have () for their output)
pub fn pattern_dfa<S: Sym>(how: &str, p: Pattern<S>, lit: Option<&Vec<S>>) -> Option<SymbolRangeDfa<S, ()>> {
    match how {
        "pat"   => Some(p.prepare_to_match()),
        "dyn"   => Some((&p as &dyn ToPattern<S>).prepare_to_match()),
        "box"   => Some(p.to_ndfa(()).prepare_to_match()),
        "dynbox" => { let b: Box<dyn ToPattern<S>> = Box::new(p); Some(b.to_ndfa(()).prepare_to_match()) }
        "self"  => { let d: SymbolRangeDfa<S, ()> = p.prepare_to_match(); Some(d.prepare_to_match()) }
        "json"  => { let d: SymbolRangeDfa<S, ()> = p.prepare_to_match(); Some(serde_json::from_str(&serde_json::to_string(&d).unwrap()).unwrap()) }
        "slice" => lit.map(|l| l[..].to_ndfa(()).prepare_to_match()),
        "dynvec" => lit.map(|l| (l as &dyn ToPattern<S>).prepare_to_match()),
        "str"   => lit.and_then(|l| S::str_pattern(l)).map(|p| p.prepare_to_match()),
        "strnd" => lit.and_then(|l| S::str_ndfa(l, ())).map(|n| n.prepare_to_match()),
        other   => panic!("unknown how {}", other)
    }
}

/// Runs a program of combinator calls
pub fn run_program<S: Sym>(q: &Value, e: &[S]) -> Pattern<S> {
    let u = |f: &str| q[f].as_u64().unwrap();
    let syms = |q: &Value| idx_list(&q["s"]).into_iter().map(|i| e[i].clone()).collect::<Vec<S>>();
    match q["op"].as_str().unwrap() {
        "eps" => Epsilon,
        "rng" => MatchRange(e[u("a") as usize].clone(), e[u("b") as usize].clone()),
        "lit" => {
            let v = syms(q);
            match q["as"].as_str().unwrap() {
                "vec"   => exactly(&v),
                "slice" => exactly(&v[..]),
                "str"   => S::str_pattern(&v).unwrap_or_else(|| exactly(&v)),
                "pat"   => exactly(Match(v)),
                "box"   => exactly(Box::new(Match(v))),
                "ref"   => exactly(&Match(v)),
                other   => panic!("unknown as {}", other)
            }
        }
        "any"    => MatchAny(q["l"].as_array().unwrap().iter().map(|x| run_program(x, e)).collect()),
        "all"    => MatchAll(q["l"].as_array().unwrap().iter().map(|x| run_program(x, e)).collect()),
        "inf"    => run_program(&q["l"], e).repeat_forever(u("n") as u32),
        "rep"    => run_program(&q["l"], e).repeat((u("m") as u32)..(u("n") as u32)),
        op @ "append" | op @ "or" => {
            let l   = run_program(&q["l"], e);
            let app = op == "append";
            macro_rules! go { ($r:expr) => { if app { l.append($r) } else { l.or($r) } } }
            match q["as"].as_str().unwrap() {
                "pat"    => go!(run_program(&q["r"], e)),
                "box"    => go!(Box::new(run_program(&q["r"], e))),
                "ref"    => go!(&run_program(&q["r"], e)),
                "boxref" => go!(&Box::new(run_program(&q["r"], e))),
                "vec"    => go!(&syms(&q["r"])),
                "slice"  => go!(&syms(&q["r"])[..]),
                "str"    => {
                    let v   = syms(&q["r"]);
                    let res = if app { S::append_str(l, &v) } else { S::or_str(l, &v) };
                    match res { Ok(p) => p, Err(l) => if app { l.append(&v) } else { l.or(&v) } }
                }
                other    => panic!("unknown as {}", other)
            }
        }
        other => panic!("unknown op {}", other)
    }
}

fn dfa_tokens<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let ts = toks(case);
    let d: SymbolRangeDfa<S, O> = token_dfa(case["how"].as_str().unwrap(), &ts, e);
    table(&d, e, |o| o.rank())
}

fn dfa_single<S: Sym>(case: &Value, e: &[S]) -> Value {
    let how = case["how"].as_str().unwrap();
    if how == "prog" {
        let d: SymbolRangeDfa<S, ()> = run_program(&case["prog"], e).prepare_to_match();
        return table(&d, e, |_| 0);
    }
    let (p, o) = toks(case)[0].clone();
    let lit = match p { P::Lit(ref s) => Some(s.iter().map(|i| e[*i].clone()).collect::<Vec<_>>()), _ => None };
    let d = pattern_dfa(how, p.to_real(e), lit.as_ref()).unwrap_or_else(|| p.to_real(e).prepare_to_match());
    table(&d, e, |_| o)
}

#[macro_export]
macro_rules! with_types {
    ($case:expr, $e:ident, $t:ident, $body:expr) => {{
        let k   = $case["k"].as_u64().unwrap() as usize;
        let emb = $case["emb"].as_str().unwrap();
        match $case["tt"].as_str().unwrap() {
            "u32" => with_embedding!(emb, k, $e, { type $t = u32; $body }),
            other => match $crate::sym::values(emb, k) {
                $crate::sym::Values::Char($e) => { with_token_type!(other, $t, $body) }
                $crate::sym::Values::U8($e)   => { with_token_type!(other, $t, $body) }
                _                             => panic!("symbols of tokens of type {} are u8 or char", other)
            }
        }
    }}
}

pub fn dfa(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    match case["how"].as_str().unwrap() {
        "tm" | "tmbox" | "tmclone" | "tmagain" | "tmgrow" | "tmgrowbox" | "tmearly" | "tmjson" | "tmbin" | "ndfa" | "boxndfa" => with_types!(case, e, T, dfa_tokens::<_, T>(case, &e)),
        _ => with_embedding!(case["emb"].as_str().unwrap(), k, e, dfa_single(case, &e))
    }
}

// --------------------------------------------------------------------------------------------------------------------------
// Running matches

fn len(r: Option<usize>) -> i64 { r.map(|l| l as i64).unwrap_or(-1) }

pub fn action<'a, O: 'static, St, F: Fn(&O) -> i64>(a: MatchAction<'a, O, St>, rank: &F) -> (i64, i64) {
    match a { Accept(n, o) => (n as i64, rank(o)), Reject => (-1, -1), More(_) => (-3, -3) }
}

/// Runs a prepared matcher over a word in every way there is. Each result is [name, length or -1, output rank or -1 or -2 (not shown)]
fn ways<S: Sym, O: Clone + Ord + 'static, F: Fn(&O) -> i64>(w: &Vec<S>, dfa: &SymbolRangeDfa<S, O>, rank: &F, tag: &str, res: &mut Vec<Value>) {
    let mut add = |n: &str, l: i64, o: i64| res.push(json!([format!("{}{}", tag, n), l, o]));
    add("matches_prepared(&vec)", len(matches_prepared(w, dfa)), -2);
    if let Some(r) = S::match_str(w, dfa) { add("matches_prepared(&str)", len(r), -2); }
    let (l, o) = action(match_pattern(dfa.start(), &mut VecReader::from_vec(w.clone())), rank);
    add("match_pattern(VecReader)", l, o);
    let (l, o) = action(match_pattern(dfa.start(), &mut Tape::new(VecReader::from_vec(w.clone()))), rank);
    add("match_pattern(Tape)", l, o);
    {
        let mut src = VecReader::from_vec(w.clone());
        let (mut a, mut b) = src.split();
        let (l, o) = action(match_pattern(dfa.start(), &mut a), rank);
        add("match_pattern(split left)", l, o);
        let (l, o) = action(match_pattern(dfa.start(), &mut b), rank);
        add("match_pattern(split right)", l, o);
    }
    {
        let mut b: Box<dyn SymbolReader<S>> = Box::new(VecReader::from_vec(w.clone()));
        let (l, o) = action(match_pattern(dfa.start(), &mut b), rank);
        add("match_pattern(Box)", l, o);
    }
    {
        let mut m = VecReader::from_vec((0..w.len()).collect::<Vec<usize>>()).map_symbols(|i: usize| w[i].clone());
        let (l, o) = action(match_pattern(dfa.start(), &mut m), rank);
        add("match_pattern(mapped)", l, o);
    }
}

fn match_tokens<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let ts  = toks(case);
    let tm  = if case["how"] == "tm" { token_matcher::<S, O>(&ts, e) } else { grown(&ts, e) };
    let d: SymbolRangeDfa<S, O> = token_dfa(case["how"].as_str().unwrap(), &ts, e);
    let mut all = vec![];
    for w in case["words"].as_array().unwrap() {
        let w: Vec<S> = idx_list(w).into_iter().map(|i| e[i].clone()).collect();
        let mut res = vec![];
        ways(&w, &d, &|o: &O| o.rank(), "", &mut res);
        res.push(json!(["matches(&TokenMatcher)", len(matches(&w, &tm)), -2]));
        all.push(res);
    }
    json!({ "res": all })
}

fn match_single<S: Sym>(case: &Value, e: &[S]) -> Value {
    let (p, o) = toks(case)[0].clone();
    let real   = p.to_real(e);
    let lit    = match p { P::Lit(ref s) => Some(s.iter().map(|i| e[*i].clone()).collect::<Vec<_>>()), _ => None };
    let d: SymbolRangeDfa<S, ()> = real.clone().prepare_to_match();
    let mut all = vec![];
    for w in case["words"].as_array().unwrap() {
        let w: Vec<S> = idx_list(w).into_iter().map(|i| e[i].clone()).collect();
        let mut res = vec![];
        ways(&w, &d, &|_: &()| o, "", &mut res);
        {
            let mut add = |n: &str, r: Option<usize>| res.push(json!([n, len(r), -2]));
            add("matches(&vec, Pattern)", matches(&w, real.clone()));
            add("matches(&vec, &dyn ToPattern)", matches(&w, &real as &dyn ToPattern<S>));
            add("matches(&vec, Box<StateMachine>)", matches(&w, real.to_ndfa(())));
            add("matches(&vec, dfa)", matches(&w, d.clone()));
            if let Some(ref l) = lit {
                add("matches(&vec, &vec as dyn)", matches(&w, l as &dyn ToPattern<S>));
                if let Some(r) = S::match_str_pattern(&w, l) { add("matches(str, str)", r); }
            }
        }
        all.push(res);
    }
    json!({ "res": all })
}

pub fn matching(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    match case["how"].as_str().unwrap() {
        "single" => with_embedding!(case["emb"].as_str().unwrap(), k, e, match_single(case, &e)),
        _        => with_types!(case, e, T, match_tokens::<_, T>(case, &e))
    }
}
