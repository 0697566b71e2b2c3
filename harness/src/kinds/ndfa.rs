//! State machines under construction (C10, C11) and maps of ranges (C12, C13)
use concordance::*;
use concordance::overlapping_symbols::SymbolMap;
use serde_json::{json, Value};
use std::rc::Rc;
use crate::sym::Sym;
use crate::with_embedding;

/// Where a symbol is in the embedding (-99: nowhere)
pub fn at<S: Sym>(e: &[S], s: &S) -> i64 { e.binary_search(s).map(|i| i as i64).unwrap_or(-99) }
pub fn range<S: Sym>(e: &[S], v: &Value, i: usize) -> SymbolRange<S> {
    SymbolRange::new(e[v[i].as_u64().unwrap() as usize].clone(), e[v[i + 1].as_u64().unwrap() as usize].clone())
}
pub fn show<S: Sym>(e: &[S], r: &SymbolRange<S>) -> Vec<i64> { vec![at(e, &r.lowest), at(e, &r.highest)] }

fn report<I, M: StateMachine<I, u32>, F: Fn(&I) -> Vec<i64>>(m: &M, show: &F, some: &Option<Vec<StateId>>) -> Value {
    let count = m.count_states();
    let mut tr  = vec![];
    let mut out = vec![];
    let states: Vec<StateId> = match some { Some(x) => x.clone(), None => (0..count).take(3000).collect() };
    for s in states {
        tr.push(m.get_transitions_for_state(s).into_iter().map(|(r, t)| { let mut v = show(&r); v.push(t as i64); v }).collect::<Vec<_>>());
        out.push(m.output_symbol_for_state(s).map(|o| *o as i64).unwrap_or(-1));
    }
    json!({"count": count, "tr": tr, "out": out})
}

fn report_via<I: Clone + 'static, F: Fn(&I) -> Vec<i64>>(via: &str, m: &Ndfa<I, u32>, show: &F, some: &Option<Vec<StateId>>) -> Value {
    match via {
        "plain" => report(m, show, some),
        "clone" => report(&m.clone(), show, some),
        "box"   => { let b: Box<dyn StateMachine<I, u32>> = Box::new(m.clone()); report(&b, show, some) }
        "rc"    => { let b: Rc<dyn StateMachine<I, u32>> = Rc::new(m.clone()); report(&b, show, some) }
        other   => panic!("unknown via {}", other)
    }
}

fn build<I: Clone + 'static, F: Fn(&I) -> Vec<i64>, G: Fn(&Value) -> I, H: Fn(&mut Ndfa<I, u32>)>(case: &Value, make: G, show: F, fix: H) -> Value {
    let via  = case["via"].as_str().unwrap();
    let ops  = case["ops"].as_array().unwrap();
    let twin_wanted = ops.iter().any(|o| o[0] == "x");
    let mut m: Ndfa<I, u32> = Ndfa::new();
    let mut twin: Ndfa<I, u32> = Ndfa::new();
    let mut ev = vec![];
    for op in ops {
        let n = |i: usize| op[i].as_u64().unwrap() as StateId;
        let mut obs = json!(0);
        match op[0].as_str().unwrap() {
            "t" => { m.add_transition(n(1), make(op), n(4)); twin.add_transition(n(1), make(op), n(4)); }
            "c" => { m.create_state(n(1)); twin.create_state(n(1)); }
            "j" => { m.join_states(n(1), n(2)); twin.join_states(n(1), n(2)); }
            "o" => { m.set_output_symbol(n(1), n(2) as u32); twin.set_output_symbol(n(1), n(2) as u32); }
            "x" => fix(&mut m),
            // Everything, or some states
            "q" | "qs" => {
                let some = op.get(1).map(|v| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as StateId).collect());
                obs = if twin_wanted { json!({"f": report_via(via, &m, &show, &some), "t": report_via("plain", &twin, &show, &some)}) } else { json!({"f": report_via(via, &m, &show, &some)}) }
            }
            other => panic!("unknown op {}", other)
        }
        ev.push(obs);
    }
    json!({"ev": ev})
}

pub fn ndfa(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    match case["emb"].as_str().unwrap() {
        // Symbols of which nothing is known but that they can be copied
        "opaque" => {
            #[derive(Clone)]
            struct Opaque(String);
            build(case, |op| Opaque(format!("{}-{}", op[2], op[3])), |o: &Opaque| o.0.split('-').map(|x| x.parse().unwrap()).collect(), |_| panic!("these can't overlap"))
        }
        emb => with_embedding!(emb, k, e, build(case, |op| range(&e, op, 2), |r| show(&e, r), |m| m.fix_overlapping_ranges()))
    }
}

/// A history of maps. The first is new, each of the others is what dividing one of them made.
/// ["a", map, ranges] adds ranges to it, ["f", map, range] looks one up, ["d", map] divides it (and reports all of what that made)
fn ranges_of<S: Sym>(case: &Value, e: &[S]) -> Value {
    let all  = SymbolRange::new(e[0].clone(), e[e.len() - 1].clone());
    // The ranges of a map can only be seen by looking them up
    let everything = |m: &SymbolMap<S>| {
        let mut found: Vec<Vec<i64>> = m.find_overlapping_ranges(&all).into_iter().map(|r| show(e, r)).collect();
        for s in e { found.extend(m.find_overlapping_ranges(&SymbolRange::new(s.clone(), s.clone())).into_iter().map(|r| show(e, r))); }
        found.sort();
        found.dedup();
        found
    };
    let mut maps = vec![SymbolMap::new()];
    let mut obs: Vec<Vec<Vec<i64>>> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let m = op[1].as_u64().unwrap() as usize - 1;
        obs.push(match op[0].as_str().unwrap() {
            "a" => { for r in op[2].as_array().unwrap() { maps[m].add_range(&range(e, r, 0)); } vec![] }
            "f" => maps[m].find_overlapping_ranges(&range(e, &op[2], 0)).into_iter().map(|r| show(e, r)).collect(),
            "d" => { let div = maps[m].to_non_overlapping_map(); let o = everything(&div); maps.push(div); o }
            other => panic!("unknown op {}", other)
        });
    }
    json!(obs)
}

pub fn ranges(case: &Value) -> Value {
    let k = case["k"].as_u64().unwrap() as usize;
    with_embedding!(case["emb"].as_str().unwrap(), k, e, ranges_of(case, &e))
}
