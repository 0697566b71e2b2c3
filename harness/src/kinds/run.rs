//! Running automata built by hand (C16)
use concordance::*;
use serde_json::{json, Value};
use crate::ast::idx_list;
use crate::sym::{Sym, Tok};
use crate::{with_embedding, with_token_type, with_types};
use super::ndfa::{range, show};

type Run<'a, S, O> = SymbolRangeState<'a, S, O>;

fn run_dfa<S: Sym, O: Tok>(case: &Value, e: &[S]) -> Value {
    let acc = case["acc"].as_u64().unwrap() as usize;
    let mut builder = SymbolRangeDfaBuilder::new();
    for s in case["b"].as_array().unwrap() {
        builder.start_state();
        let tr  = s["tr"].as_array().unwrap();
        let out = s["out"].as_i64().unwrap();
        // The accept call can come anywhere in the block
        for i in 0..tr.len() + 1 {
            if out >= 0 && i == acc.min(tr.len()) { builder.accept(O::from_rank(out)); }
            if i < tr.len() { builder.transition(range(e, &tr[i], 0), tr[i][2].as_u64().unwrap() as StateId); }
        }
    }
    let built: SymbolRangeDfa<S, O> = builder.build();
    let dfa: SymbolRangeDfa<S, O> = match case["via"].as_str().unwrap() {
        "plain" => built,
        "clone" => { let c = built.clone(); drop(built); c }
        "json"  => serde_json::from_str(&serde_json::to_string(&built).unwrap()).unwrap(),
        "bin"   => bincode::deserialize(&bincode::serialize(&built).unwrap()).unwrap(),
        "prep"  => built.prepare_to_match(),
        other   => panic!("unknown via {}", other)
    };

    let mut runs: Vec<Option<Run<S, O>>> = vec![];
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let n    = |i: usize| op[i].as_u64().unwrap() as usize;
        let kind = op[0].as_str().unwrap();
        let (at, action) = if kind == "b" { runs.push(None); (runs.len() - 1, dfa.start()) } else {
            let at = n(1) - 1;
            match (kind, if kind == "c" { runs[at].clone() } else { runs[at].take() }) {
                ("c", r)       => { let there = r.is_some(); runs.push(r); ev.push(json!({"a": if there { "copied" } else { "gone" }})); continue; }
                (_, None)      => { ev.push(json!({"a": "gone"})); continue; }
                ("s", Some(r)) => (at, r.next(e[n(2)].clone())),
                ("f", Some(r)) => (at, r.finish()),
                ("p", Some(r)) => {
                    let w = idx_list(&op[2]).into_iter().map(|i| e[i].clone()).collect::<Vec<_>>();
                    (at, match_pattern(More(r), &mut w.read_symbols()))
                }
                (other, _)     => panic!("unknown op {}", other)
            }
        };
        let tok  = match action { Accept(_, o) => o.clone(), _ => O::from_rank(0) };
        let yes  = action.is_accepted(&tok);
        let no   = action.is_accepted(&O::from_rank(tok.rank() + 1));
        ev.push(match action {
            Accept(n, o) => json!({"a": "accept", "n": n, "o": o.rank(), "yes": yes, "no": no}),
            Reject       => json!({"a": "reject", "yes": yes, "no": no}),
            More(r)      => { runs[at] = Some(r); json!({"a": "more", "yes": yes, "no": no}) }
        });
    }
    let table: Vec<Value> = (0..dfa.count_states()).map(|d| json!({
        "out": dfa.output_symbols_for_state(d).into_iter().map(|o| o.rank()).next().unwrap_or(-1),
        "tr": dfa.get_transitions_for_state(d).into_iter().map(|(r, t)| { let mut v = show(e, &r); v.push(t as i64); v }).collect::<Vec<_>>()
    })).collect();
    json!({"ev": ev, "count": dfa.count_states(), "dfa": table})
}

pub fn run(case: &Value) -> Value {
    with_types!(case, e, T, run_dfa::<_, T>(case, &e))
}
