//! Cases about compiling machines (C14)
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use crate::rng::Rand;
use super::pat::{nested, pattern, pick_embedding, structured};
use crate::ast::{dfa_size, P};
use crate::ast::P::*;

const TT: &[&str] = &["u32", "i8", "str", "rev"];

/// Bounds the number of sets of states that a machine without joins has, or with joins made into moves
fn sets(states: usize, trans: &[(usize, usize, usize)], joins: &[(usize, usize)], cap: usize) -> bool {
    let reach = |s: usize| { let mut seen = BTreeSet::new(); let mut todo = vec![s]; while let Some(x) = todo.pop() { if seen.insert(x) { for j in joins { if j.0 == x { todo.push(j.1); } } } } seen };
    let closure: Vec<BTreeSet<usize>> = (0..states).map(reach).collect();
    let mut known = BTreeSet::new();
    let mut todo: Vec<BTreeSet<usize>> = vec![vec![0].into_iter().collect()];
    while let Some(s) = todo.pop() {
        if !known.insert(s.clone()) { continue; }
        if known.len() > cap { return false; }
        let mut next: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for x in &s { for y in &closure[*x] { for t in trans { if t.0 == *y { next.entry(t.1).or_default().insert(t.2); } } } }
        todo.extend(next.into_values());
    }
    true
}

fn case(r: &mut Rand, i: usize, k: usize, cuts: &[(usize, usize)], states: usize, count: usize, cap: usize) -> Value {
    let machine = if i % 5 != 0 && r.chance(1, 6) { *r.pick(&["dfa", "dfabox"]) } else { *r.pick(&["ndfa", "new", "box", "rc", "own", "ownbox", "simple"]) };
    let own     = machine.starts_with("own") || machine == "simple";
    loop {
        let mut trans = vec![];
        let mut joins = vec![];
        let mut ops = vec![];
        let sparse = r.chance(1, 2);
        for _ in 0..count {
            let mut s = r.usize(0, states - 1);
            if sparse && r.chance(1, 3) { s = s / 3; }
            let t = r.usize(0, states - 1);
            match r.below(12) {
                0     => ops.push(json!(["c", s])),
                1 | 2 => ops.push(json!([if machine.starts_with("own") && r.chance(1, 2) { "p" } else { "o" }, s, r.below(6)])),
                3 | 4 if !own => { joins.push((s, t)); ops.push(json!(["j", s, t])) }
                _     => {
                    let x = r.usize(0, cuts.len() - 1);
                    trans.push((s, x, t));
                    ops.push(json!(["t", s, cuts[x].0, cuts[x].1, t]));
                }
            }
        }
        if !sets(states, &trans, &joins, cap) { continue; }
        let emb = if i % 5 == 0 { "opaque".to_string() } else { pick_embedding(r, k) };
        return json!({"kind": "compile", "k": k, "emb": emb, "tt": TT[i % 4], "machine": machine, "ops": ops});
    }
}

pub fn generate(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C14");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..4000 * scale {
        let k = r.usize(1, 7);
        let big = i % 10 == 0;
        // Divide the domain into labels, some of which are left out or neighbours
        let mut cuts = vec![];
        let mut at = 0;
        while at < k { let n = if r.chance(2, 3) { 1 } else { r.usize(1, 3) }; if r.chance(5, 6) || at + n >= k { cuts.push((at, (at + n - 1).min(k - 1))); } at += n; }
        let states = if big { r.usize(6, 25) } else { r.usize(1, 7) };
        let count  = if big { r.usize(20, 60) } else { r.usize(0, 22) };
        res.push(case(&mut r, i, k, &cuts, states, count, if big { 150 } else { 60 }));
    }
    // Long ones
    for i in 0..6 * scale.min(4) {
        let n = 60 + 40 * i;
        let mut o: Vec<Value> = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for s in order {
            o.push(json!(["t", s, s % 2, s % 2, (s + 1) % n]));
            if s % 13 == 5 { o.push(json!(["o", s, s])); }
            if s % 17 == 3 && i % 2 == 0 { o.push(json!(["j", s, (s + 1) % n])); }
        }
        res.push(json!({"kind": "compile", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "machine": if i % 2 == 0 { "ndfa" } else { "own" }, "ops": o}));
    }
    for n in [257usize, 520, 1030, 2100] {
        // A ring, numbered in some order, from which states go back to the start or next to it
        let mut o: Vec<Value> = vec![];
        let mut name: Vec<usize> = (1..n).collect();
        r.shuffle(&mut name);
        name.insert(0, 0);
        let far = *r.pick(&[0, 1, n - 1]);
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        for i in order {
            let s = name[i];
            o.push(json!(["t", s, i % 2, i % 2, name[(i + 1) % n]]));
            if i % 9 == 0 { o.push(json!(["t", s, 1 - i % 2, 1 - i % 2, name[far]])); }
            if i % 31 == 5 { o.push(json!(["o", s, i])); }
        }
        res.push(json!({"kind": "compile", "k": 2, "emb": pick_embedding(&mut r, 2), "tt": "u32", "machine": *r.pick(&["ndfa", "own", "box", "dfa"]), "ops": o}));
    }
    // One state joined to many, that accept with many outputs and move on the same symbols, or one symbol that leads to as many
    for i in 0..if deep { 80 } else { 16 } {
        let n = *r.pick(&[3, 6, 9, 17, 33, 40, 65, 130, 260, 300]);
        let k = r.usize(1, 3);
        let mut o: Vec<Value> = vec![];
        let mut order: Vec<usize> = (1..n).collect();
        r.shuffle(&mut order);
        for s in &order {
            o.push(if i % 2 == 0 { json!(["j", 0, s]) } else { json!(["t", 0, 0, 0, s]) });
            if i % 4 < 2 || r.chance(1, 4) { o.push(json!(["o", s, r.usize(0, n)])); }
            let next = match r.below(4) { 0 => n, 1 => *s, _ => n - 1 };
            if r.chance(2, 3) { let x = r.usize(0, k - 1); o.push(json!(["t", s, x, x, next])); }
        }
        if r.chance(1, 2) { o.push(json!(["o", n, 500])); }
        res.push(json!({"kind": "compile", "k": k, "emb": pick_embedding(&mut r, k), "tt": "u32", "machine": if i % 2 == 0 { *r.pick(&["ndfa", "box", "rc"]) } else { *r.pick(&["ndfa", "own", "dfa"]) }, "ops": o}));
    }
    // Moves on very many symbols
    for i in 0..if deep { 60 } else { 8 } {
        let k = *r.pick(&[17, 40, 65, 130, 256, 257, 300]);
        let cuts: Vec<(usize, usize)> = (0..k).map(|x| (x, x)).collect();
        let (states, cap) = if k > 100 { (r.usize(2, 5), 24) } else { (r.usize(2, 12), 120) };
        res.push(case(&mut r, i, k, &cuts, states, k + k / 4, cap));
    }
    res
}

/// Patterns that match next to nothing, or nothing
fn tiny(r: &mut Rand, k: usize) -> P {
    let inner = match r.below(6) { 0 => Eps, 1 => Lit(vec![]), 2 => Any(vec![]), 3 => All(vec![]), 4 => Lit(vec![r.usize(0, k - 1)]), _ => Rng(0, k - 1) };
    match r.below(9) {
        0 => inner,
        1 => Any(vec![]),
        2 => Any(vec![inner]),
        3 => Any(vec![inner.clone(), inner]),
        4 => All(vec![inner]),
        5 => All(vec![inner, Any(vec![])]),
        6 => Rep(0, 0, Box::new(inner)),
        7 => { let m = r.below(3) as u32; Rep(m, m, Box::new(inner)) }
        _ => Inf(r.below(2) as u32, Box::new(inner))
    }
}

/// Patterns compiled onto a machine one after the other (C15)
pub fn patterns(seed: u64, deep: bool) -> Vec<Value> {
    let mut r   = Rand::new(seed, "C15");
    let mut res = vec![];
    let scale   = if deep { 15 } else { 1 };
    for i in 0..2400 * scale {
        let k      = *r.pick(&[1, 2, 2, 3, 4]);
        let states = r.usize(1, 5);
        let count  = r.usize(0, 8);
        let mut ops = vec![];
        for _ in 0..count {
            let s = r.usize(0, states - 1);
            let t = r.usize(0, states - 1);
            match r.below(8) {
                0     => ops.push(json!(["c", s])),
                1 | 2 => ops.push(json!(["j", s, t])),
                3     => ops.push(json!(["o", s, r.below(4)])),
                _     => { let a = r.usize(0, k - 1); ops.push(json!(["t", s, a, r.usize(a, k - 1), t])) }
            }
        }
        // Far more states than are used
        if i % 16 == 0 { ops.push(json!(["c", r.usize(10, 40)])); }
        let n = r.usize(1, 4);
        let steps: Vec<Value> = (0..n).map(|_| {
            let p = if r.chance(1, 3) { tiny(&mut r, k) } else { pattern(&mut r, k, 3, 16, 30) };
            json!({"at": match r.below(4) { 0 => -1, 1 => 0, _ => r.range(0, 60) }, "p": p.json()})
        }).collect();
        res.push(json!({"kind": "compile_on", "k": k, "emb": pick_embedding(&mut r, k), "ops": ops, "steps": steps}));
    }
    for _ in 0..16 * scale.min(6) {
        let p = nested(&mut r, 2);
        if p.cost() > 300 { continue; }
        res.push(json!({"kind": "compile_on", "k": 2, "emb": pick_embedding(&mut r, 2), "ops": [["t", 0, 0, 0, 1], ["j", 0, 2]], "steps": [{"at": r.below(3), "p": p.json()}]}));
    }
    // Onto machines with very many states, from far up
    for n in &[255, 256, 300, 1025, 4097] {
        let k = 3;
        let mut ops = vec![];
        let seen = [0, 1, n / 2, n - 2, n - 1];
        for _ in 0..8 {
            let (s, t) = (*r.pick(&seen), *r.pick(&seen));
            match r.below(5) { 0 => ops.push(json!(["j", s, t])), 1 => ops.push(json!(["o", s, r.below(4)])), _ => { let x = r.usize(0, k - 1); ops.push(json!(["t", s, x, x, t])); } }
        }
        ops.push(json!(["t", n - 1, 0, 1, 0]));
        let steps: Vec<Value> = (0..2).map(|i| json!({"at": if i == 0 { (n - 1) as i64 } else { *r.pick(&[0, 1, -1]) }, "p": pattern(&mut r, k, 3, 12, 20).json()})).collect();
        res.push(json!({"kind": "compile_on", "k": k, "emb": pick_embedding(&mut r, k), "ops": ops, "steps": steps}));
    }
    for i in 0..32 * scale.min(6) {
        let (k, p) = structured(&mut r, i);
        if p.cost() > 300 || dfa_size(&[&p], k, 200).is_none() { continue; }
        res.push(json!({"kind": "compile_on", "k": k, "emb": pick_embedding(&mut r, k), "ops": [["t", 0, 0, 0, 1]], "steps": [{"at": 1, "p": p.json()}]}));
    }
    res
}
